"""Symbolic execution / VC generation over LLVM IR (exported by tools/irdump).

Every function is executed on its *real* compiled IR.  Callees that carry a contract are replaced by
the contract (requires = obligation, modifies = havoc, ensures = assumption); callees without one are
executed in place.  Loops are cut by invariants (unbounded) or, where the exit condition is decided on
every iteration, executed to the end (complete, no bound involved).
"""
import json, os, re, sys, time, itertools, copy
import z3

class Unsupported(Exception): pass
class Undecided(Exception): pass

BV64 = z3.BitVecSort(64)
_fresh = itertools.count()
def fresh_name(p): return f"{p}!{next(_fresh)}"
def fresh_mark(): return next(_fresh)
def fresh_no(n):
    i = n.rfind('!')
    return int(n[i + 1:]) if i >= 0 and n[i + 1:].isdigit() else None
_symbols = {}
def symbols(x):
    """names of the constants of a formula"""
    if not isinstance(x, z3.ExprRef): return frozenset()
    k = x.get_id(); c = _symbols.get(k)
    if c is not None and c[0].eq(x): return c[1]
    out, seen, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_quantifier(y): todo.append(y.body()); continue
        if not z3.is_app(y): continue
        if y.num_args() == 0:
            if y.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(y.decl().name())
        else: todo.extend(y.children())
    _symbols[k] = (x, frozenset(out)); return _symbols[k][1]

def bvw(w): return z3.BitVecSort(w)

class Ptr:
    __slots__ = ('r', 'i', 'o')
    def __init__(s, r, i=0, o=0): s.r, s.i, s.o = r, i, o
    def __repr__(s): return f"Ptr({s.r},{s.i},{s.o})"
NULL = Ptr(0, 0, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return f"Fn({s.name})"
class Tok:
    """opaque function/vtable token: ('vt', cls) or ('vfn', cls, slot)"""
    __slots__ = ('k',)
    def __init__(s, *k): s.k = k
    def __repr__(s): return f"Tok{s.k}"
    def __eq__(s, o): return isinstance(o, Tok) and o.k == s.k
    def __hash__(s): return hash(s.k)
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
class MultiPtr:
    """guarded set of pointers: list of (cond, ptr); resolved by forking when used"""
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts

def is_conc(v): return isinstance(v, int)
def is_ptr(v): return isinstance(v, (Ptr, FnPtr, Tok))

def to_bv(v, w):
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def to_bool(v):
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    if z3.is_bool(v): return v
    return v == z3.BitVecVal(1, v.size())
def norm(v, w=None):
    """simplify; turn literal into python int"""
    if isinstance(v, int): return v
    if isinstance(v, z3.ExprRef):
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        if z3.is_app(v) and v.num_args() == 0: return v
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
    return v
def mask(x, w): return x & ((1 << w) - 1)
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x

class Region:
    __slots__ = ('id', 'name', 'stride', 'size', 'length', 'cells', 'arrs', 'lazy', 'freed', 'const', 'kind', 'origin', 'meta', 'hook')
    def __init__(s, id, name, size=None, stride=None, length=None, lazy=None, const=False, origin='local', meta=None):
        s.id, s.name, s.size, s.stride, s.length = id, name, size, stride, length
        s.cells = {}; s.arrs = {}; s.lazy = lazy; s.freed = False; s.const = const; s.origin = origin; s.meta = meta; s.hook = None
    def clone(s):
        r = Region.__new__(Region)
        for k in ('id','name','size','stride','length','lazy','freed','const','origin','meta','hook'): setattr(r, k, getattr(s, k))
        r.cells = dict(s.cells); r.arrs = dict(s.arrs)
        return r

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'loc', 'ret_to', 'allocas', 'loopctx', 'on_return', 'tag', 'unroll')
    def __init__(s, fn): s.fn = fn; s.blk = 0; s.ip = 0; s.prev = None; s.loc = {}; s.ret_to = None; s.allocas = []; s.loopctx = {}; s.on_return = None; s.tag = None; s.unroll = {}
    def clone(s):
        f = Frame.__new__(Frame)
        for k in ('fn','blk','ip','prev','ret_to','on_return','tag'): setattr(f, k, getattr(s, k))
        f.loc = dict(s.loc); f.allocas = list(s.allocas); f.loopctx = dict(s.loopctx); f.unroll = dict(s.unroll)
        return f

class State:
    __slots__ = ('regs', 'owned', 'frames', 'pc', 'exc', 'caught', 'ghost', 'done', 'trace', 'writes', 'eng', 'ssolver')
    def __init__(s, eng): s.eng = eng; s.regs = {}; s.owned = set(); s.frames = []; s.pc = []; s.exc = None; s.caught = []; s.ghost = {}; s.done = None; s.trace = []; s.writes = set()
    def fork(s):
        t = State.__new__(State)
        t.eng = s.eng
        t.regs = dict(s.regs); s.owned = set(); t.owned = set()
        t.frames = [f.clone() for f in s.frames]
        t.pc = list(s.pc); t.exc = s.exc; t.caught = list(s.caught); t.ghost = dict(s.ghost); t.done = s.done; t.trace = list(s.trace); t.writes = set(s.writes)
        return t
    def snapshot(s):
        t = s.fork(); return t
    # ---- memory
    def region(s, rid): return s.regs[rid]
    def wregion(s, rid):
        if rid not in s.owned:
            s.regs[rid] = s.regs[rid].clone(); s.owned.add(rid)
        return s.regs[rid]
    def alloc(s, name, size=None, **kw):
        rid = next(s.eng.rid)
        s.regs[rid] = Region(rid, name, size=size, **kw); s.owned.add(rid)
        return Ptr(rid, 0, 0)
    def assume(s, c):
        if isinstance(c, (bool, int)):
            c = z3.BoolVal(bool(c))
        if z3.is_true(c): return
        s.pc.append(c)
    def top(s): return s.frames[-1]

class Module:
    def __init__(s, *paths):
        s.funcs = {}; s.globals = {}; s.layouts = {}; s.types = None
        for p in paths:
            d = json.load(open(p))
            assert s.types is None
            s.types = d['types']; s.funcs = d['funcs']; s.globals = d['globals']; s.layouts = d['layouts']
        for k, f in s.funcs.items(): f['name'] = k
        s.bydem = {}
        for k, f in s.funcs.items(): s.bydem.setdefault(f['dem'], k)
        s._loops = {}
    def find(s, rx, defined=True):
        r = re.compile(rx)
        return [k for k, f in s.funcs.items() if r.search(f['dem']) and (not defined or not f['decl'])]
    def one(s, rx):
        l = s.find(rx)
        if len(l) != 1: raise Unsupported(f"function lookup {rx!r}: {len(l)} matches {[s.funcs[x]['dem'][:90] for x in l[:4]]}")
        return l[0]
    def field(s, cls, *names):
        """byte offset of a (possibly inherited) member"""
        off = 0
        for n in names:
            o, ty = s._field(cls, n)
            off += o; cls = ty
        return off
    def _field(s, cls, n):
        L = s.layouts.get(cls)
        if L is None: raise Unsupported(f"no layout for {cls}")
        if n in L['m']: return L['m'][n][0], L['m'][n][2]
        for bo, b in L['b']:
            try:
                o, t = s._field(b, n); return bo + o, t
            except Unsupported: pass
        raise Unsupported(f"no member {n} in {cls}")
    def clssize(s, cls): return s.layouts[cls]['size']
    def succs(s, blk):
        t = blk['i'][-1]
        if t['op'] == 'br': return t['s']
        if t['op'] == 'switch': return [c[1] for c in t['cases']] + [t['def']]
        if t['op'] == 'invoke': return [t['nd'], t['ud']]
        return []
    def loops(s, fn):
        """natural loops: header -> set(blocks)"""
        if fn in s._loops: return s._loops[fn]
        B = s.funcs[fn]['blocks']; n = len(B)
        succ = [s.succs(b) for b in B]
        pred = [[] for _ in range(n)]
        for i, l in enumerate(succ):
            for j in l: pred[j].append(i)
        order = []; seen = set()
        stack = [(0, iter(succ[0]))]; seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen: seen.add(v); stack.append((v, iter(succ[v]))); break
            else: order.append(u); stack.pop()
        order.reverse()
        dom = {u: None for u in order}; dom[0] = {0}
        allb = set(order); ch = True
        for u in order[1:]: dom[u] = allb
        while ch:
            ch = False
            for u in order[1:]:
                ps = [dom[p] for p in pred[u] if p in allb]
                d = set.intersection(*ps) | {u}
                if d != dom[u]: dom[u] = d; ch = True
        loops = {}
        for u in order:
            for v in succ[u]:
                if v in dom[u]:
                    body = loops.setdefault(v, {v}); st = [u]
                    while st:
                        x = st.pop()
                        if x not in body: body.add(x); st += [p for p in pred[x] if p in allb]
        s._loops[fn] = loops
        return loops

class Obligation:
    __slots__ = ('name', 'status', 'model', 'where', 't', 'path', 'backend', 'detail')
    def __init__(s, name, status, model=None, where='', t=0.0, path=None, backend='z3', detail=''):
        s.name, s.status, s.model, s.where, s.t, s.path, s.backend, s.detail = name, status, model, where, t, path, backend, detail

class Engine:
    def __init__(s, mod, tier='quick', log=None):
        s.m = mod; s.T = mod.types; s.rid = itertools.count(1)
        s.contracts = {}       # mangled -> Contract used at call sites
        s.models = []          # (regex, handler)
        s._mcache = {}
        s.globals = {}         # name -> region id
        s.obls = []            # Obligation list
        s.quiet = 0            # >0: do not record obligations (loop trial runs)
        s.loop_specs = []      # (func-regex, LoopSpec)
        s.max_unroll = 600
        s.max_steps = 4000000
        s.steps = 0
        s.tmo = 20000 if tier == 'quick' else 120000
        s.base_axioms = []
        s.ematch = False       # quantified specifications: instantiate by patterns only (unknown counts as feasible / not proved)
        s.qtime = 0.0; s.nq = 0
        s.vfn_handlers = {}    # class -> handler(eng, st, slot, args, ins)
        s.log = log
        s.cur = ''             # current function under verification
        s.executed = set()     # demangled functions executed (in place)
        s.modelled = set(); s.contracted = set()
        s.check_bounds = True
        s.ubsan = True
        s.failed_paths = []
        s.tier = tier
        s.nmodel = 0; s.dyninit = None; s._initfn = None   # regex of globals with dynamic initialisation that is to be executed
        s.smt_dump = []        # (name, smt2) for cross checking
        s._init_std()
    # ------------------------------------------------------------------ solver
    def solver(s, st, extra=(), tmo=None, simple=False):
        sv = z3.SimpleSolver() if simple else z3.Solver()
        sv.set('timeout', tmo or s.tmo)
        if s.ematch: sv.set('mbqi', False); sv.set('auto_config', False)
        for a in s.base_axioms: sv.add(a)
        for c in st.pc: sv.add(c)
        for c in extra: sv.add(c)
        return sv
    def check(s, st, extra=(), tmo=None, full=False):
        """(result, solver): plain SMT core first, full preprocessing as fallback"""
        s.nq += 1
        t = tmo or s.tmo
        sv = s.solver(st, extra, min(t, 1200 if s.ematch else 2500), simple=True); r = sv.check()
        if r == z3.unknown and s.ematch and not full:
            if 'incomplete' in sv.reason_unknown(): return r, sv     # all instances considered
            for seed in (0, 7):
                sv2 = s.solver(st, extra, t); sv2.set('random_seed', seed); r = sv2.check()
                if r != z3.unknown or 'incomplete' in sv2.reason_unknown(): return r, sv2
            return r, sv2
        if r == z3.unknown and t > 2500:
            sv = s.solver(st, extra, t); r = sv.check()
        return r, sv
    def sat(s, st, *extra, tmo=None):
        t = time.time()
        r, sv = s.check(st, extra, tmo)
        s.qtime += time.time() - t
        return r
    def feasible(s, st, *extra):
        for c in extra:
            if z3.is_false(c): return False
        return s.sat(st, *extra, tmo=5000) != z3.unsat
    def must(s, st, c):
        if isinstance(c, (bool, int)): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return not s.feasible(st)
        return s.sat(st, z3.Not(c), tmo=5000) == z3.unsat
    def dump_cex(s, st, c, n):
        t = time.time(); r, sv = s.check(st, (z3.Not(c),), 5000); print('CEX', n, r, sv.reason_unknown() if r == z3.unknown else '', round(time.time() - t, 2)); print(c)
        if os.environ.get('VC_SMT'): open(os.environ['VC_SMT'], 'w').write(sv.to_smt2())
        for p in st.pc: print('   PC', str(p).replace(chr(10), ' ')[:400])
        try:
            m = sv.model()
            for d in sorted(m.decls(), key=str): print('   M', d.name(), str(m[d]).replace(chr(10), ' ')[:150])
        except Exception as x: print(x)
        sys.stdout.flush(); os._exit(0)
    def prove(s, st, cond, name, where=None):
        """obligation: path condition => cond"""
        if isinstance(cond, (bool, int)): cond = z3.BoolVal(bool(cond))
        if s.quiet:
            st.assume(cond); return True
        t = time.time()
        if where is None: where = s.where(st)
        sc = z3.simplify(cond)
        if z3.is_true(sc):
            s.obls.append(Obligation(name, 'proved', where=where, backend='simplify')); return True
        r, sv = s.check(st, [z3.Not(cond)], full=True); dt = time.time() - t; s.qtime += dt
        if r == z3.unsat:
            s.obls.append(Obligation(name, 'proved', where=where, t=dt))
            if s.tier == 'thorough': s.smt_dump.append((name, sv.to_smt2()))
            st.assume(cond); return True
        if r == z3.unknown and s.ematch and s.nmodel < 6:
            s.nmodel += 1; s.ematch = False; sv2 = s.solver(st, [z3.Not(cond)], 4000); r2 = sv2.check(); s.ematch = True
            if r2 == z3.sat: r, sv = r2, sv2
        if r == z3.sat and s.loose(st, cond):
            s.obls.append(Obligation(name, 'unknown', where=where, t=dt, detail='depends on a variable of a loop that the invariants do not cover', path=st))
            st.assume(cond); return False
        if r == z3.sat:
            s.obls.append(Obligation(name, 'refuted', model=sv.model(), where=where, t=dt, path=st))
            st.assume(cond); return False
        s.obls.append(Obligation(name, 'unknown', where=where, t=dt, detail=sv.reason_unknown(), path=st))
        st.assume(cond); return False
    def loose(s, st, cond):
        ls = st.ghost.get('~loose', ())
        if not ls: return False
        for n in symbols(cond) | set().union(*[symbols(p) for p in st.pc]):
            k = fresh_no(n)
            if k is not None and any(a < k <= b and n not in known for a, b, known in ls): 
                if os.environ.get('VC_DEBUG'): print('LOOSE', n)
                return True
        return False
    def cover(s, st, name, *extra):
        """reachability: path condition must be satisfiable (vacuity guard)"""
        if s.quiet: return True
        em, s.ematch = s.ematch, False; r, _ = s.check(st, extra, full=True); s.ematch = em
        s.obls.append(Obligation('cover:' + name, 'proved' if r == z3.sat else ('vacuous' if r == z3.unsat else 'unknown'), where=s.cur, backend='z3-cover'))
        return r == z3.sat
    def where(s, st):
        for f in reversed(st.frames):
            fn = s.m.funcs[f.fn]
            try:
                blk = fn['blocks'][f.blk]['i']; i = blk[min(f.ip, len(blk) - 1)]
                return f"{fn['dem'][:120]} ({(i.get('fl') or fn.get('file') or '?')}:{i.get('ln','?')})"
            except Exception: return fn['dem'][:120]
        return s.cur
    # ------------------------------------------------------------------ constants
    def const(s, st, c):
        k = c[0]
        if k == 'c': return mask(int(c[1]), c[2])
        if k == 'fp': return int(c[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return s.zero(c[1])
        if k == 'f': return FnPtr(c[1])
        if k == 'g': return s.gptr(st, c[1])
        if k == 'gepc':
            b = s.const(st, c[1]); return s.padd(st, b, c[2])
        if k == 'cast': return s.const(st, c[2])
        if k == 'agg': return [s.const(st, x) for x in c[2]]
        if k == 'bytes': return list(bytes.fromhex(c[1]))
        if k == 'bin':
            a, b = s.const(st, c[2]), s.const(st, c[3])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and c[1] == 'sub': return s.psub(a, b, st)
        raise Unsupported(f"constant {c}")
    def zero(s, t):
        T = s.T[t]
        if T['k'] == 'int' or T['k'] == 'fp': return 0
        if T['k'] == 'ptr': return NULL
        if T['k'] == 'struct': return [s.zero(x[1]) for x in T['f']]
        if T['k'] in ('array', 'vec'): return [s.zero(T['e']) for _ in range(T['n'])]
        raise Unsupported('zero of ' + T['k'])
    def gptr(s, st, name):
        if name in s.globals and s.globals[name] in st.regs: return Ptr(s.globals[name], 0, 0)
        g = s.m.globals[name]
        if name in s.globals:
            rid = s.globals[name]
        else:
            rid = next(s.rid); s.globals[name] = rid
        size = s.T[g['t']].get('size')
        r = Region(rid, 'g:' + g['dem'], size=size, const=g['const'], origin='global')
        st.regs[rid] = r; st.owned.add(rid)
        if 'init' in g: s.store_const(st, r, 0, g['t'], g['init'])
        else: r.lazy = True
        if s.dyninit and not g['const'] and re.search(s.dyninit, g['dem']): s.run_init(st, name, rid)
        return Ptr(rid, 0, 0)
    def run_init(s, st, name, rid):
        """dynamic initialisation of a global: the initialiser found in the IR is executed (it ran before main)"""
        if s._initfn is None:
            s._initfn = {}
            for k, f in s.m.funcs.items():
                if k.startswith('__cxx_global_var_init') and not f['decl']:
                    for n in set(re.findall(r"\['g', '([^']+)'\]", str([b['i'] for b in f['blocks']]))): s._initfn.setdefault(n, k)
        fn = s._initfn.get(name)
        if fn is None:
            return   # constant initialisation; nothing else may write it (its class has no mutators)
        t = st.fork(); t.frames = []; t.done = None; t.pc = []
        di, s.dyninit = s.dyninit, None
        s.quiet += 1
        try:
            for n in [n for n in s.m.globals if n.startswith('_ZGV' + name[2:])]:
                t.wregion(s.gptr(t, n).r).cells = {0: (1, 0)}
            fin = s.run(t, fn, [])
        finally: s.quiet -= 1; s.dyninit = di
        if len(fin) != 1 or fin[0].done[0] != 'ret': raise Unsupported('initialiser ' + fn)
        x = fin[0]
        st.wregion(rid).cells = dict(x.regs[rid].cells)
        for k, r in x.regs.items():
            if k not in st.regs and r.origin == 'global' and r.const: st.regs[k] = r
    def store_const(s, st, r, off, t, c):
        T = s.T[t]
        if c[0] == 'bytes':
            for i, b in enumerate(bytes.fromhex(c[1])): r.cells[off + i] = (1, b)
        elif c[0] == 'agg':
            if T['k'] == 'struct':
                for (fo, ft), x in zip(T['f'], c[2]): s.store_const(st, r, off + fo, ft, x)
            else:
                es = s.T[T['e']]['size']
                for i, x in enumerate(c[2]): s.store_const(st, r, off + i * es, T['e'], x)
        elif c[0] == 'zero':
            if T.get('size', 0) > 65536: raise Unsupported('huge zero init')
            s.store_zero(r, off, t)
        elif c[0] == 'undef': pass
        else: r.cells[off] = (T['size'], s.const(st, c))
    def store_zero(s, r, off, t):
        T = s.T[t]
        if T['k'] == 'struct':
            for fo, ft in T['f']: s.store_zero(r, off + fo, ft)
        elif T['k'] in ('array', 'vec'):
            es = s.T[T['e']]['size']
            for i in range(T['n']): s.store_zero(r, off + i * es, T['e'])
        elif T['k'] == 'ptr': r.cells[off] = (8, NULL)
        else: r.cells[off] = (T['store'], 0)
    # ------------------------------------------------------------------ pointers
    def padd(s, st, p, off):
        if off == 0: return p
        if isinstance(p, Tok): return Tok(*(p.k + (off,))) if p.k[0] == 'vt' and len(p.k) == 2 else Tok('vt', p.k[1], p.k[2] + off)
        if not isinstance(p, Ptr): raise Unsupported(f'pointer arithmetic on {p}')
        if p.r == 0: return Ptr(0, norm(to_bv(p.i, 64) + off), 0) if not is_conc(p.i) else Ptr(0, mask(p.i + off, 64), 0)
        r = st.regs[p.r]
        if r.stride:
            o = p.o + off; i = p.i
            if o < 0 or o >= r.stride:
                q = o // r.stride; o -= q * r.stride
                i = mask(i + q, 64) if is_conc(i) else norm(i + q)
            return Ptr(p.r, i, o)
        return Ptr(p.r, p.i, p.o + off)
    def padd_sym(s, st, p, idx, scale):
        """p + idx*scale, idx symbolic or concrete (signed 64)"""
        if is_conc(idx): return s.padd(st, p, sgn(idx, 64) * scale)
        if isinstance(p, Ptr) and p.r != 0:
            r = st.regs[p.r]
            if r.stride:
                if scale % r.stride == 0:
                    return Ptr(p.r, norm(to_bv(p.i, 64) + idx * (scale // r.stride)), p.o)
                raise Unsupported(f'symbolic sub-element offset in {r.name} scale {scale} stride {r.stride}')
            raise NeedConc(idx)
        raise Unsupported('symbolic offset on ' + repr(p))
    def psub(s, a, b, st):
        if a.r != b.r: raise Unsupported(f'subtract pointers of different regions {a} {b}')
        if a.r == 0: return norm(to_bv(a.i, 64) - to_bv(b.i, 64)) if not (is_conc(a.i) and is_conc(b.i)) else mask(a.i - b.i, 64)
        r = st.regs[a.r]
        if r.stride:
            if is_conc(a.i) and is_conc(b.i): return mask((a.i - b.i) * r.stride + a.o - b.o, 64)
            return norm((to_bv(a.i, 64) - to_bv(b.i, 64)) * r.stride + (a.o - b.o))
        return mask(a.o - b.o, 64)
    def peq(s, a, b, st):
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('compare undef pointer')
        if isinstance(a, (FnPtr, Tok)) or isinstance(b, (FnPtr, Tok)):
            if type(a) != type(b): return 0
            return int(a.name == b.name) if isinstance(a, FnPtr) else int(a == b)
        if a.r != b.r: return 0
        r = st.regs.get(a.r)
        if a.r == 0 or r.stride or not (is_conc(a.i) and is_conc(b.i)):
            if a.o != b.o: return 0
            if is_conc(a.i) and is_conc(b.i): return int(a.i == b.i)
            return norm(to_bv(a.i, 64) == to_bv(b.i, 64))
        return int(a.o == b.o)
    # ------------------------------------------------------------------ loads/stores
    def bounds(s, st, p, n, what):
        if not s.check_bounds: return
        if not isinstance(p, Ptr): raise Unsupported(f'{what} through {p}')
        if p.r == 0:
            s.prove(st, False, 'memory-safety: null/invalid pointer ' + what); raise PathEnd()
        r = st.regs[p.r]
        if r.freed:
            s.prove(st, False, f'memory-safety: {what} after free of {r.name}'); raise PathEnd()
        if r.stride:
            if r.length is not None:
                L = to_bv(r.length, 64); i = to_bv(p.i, 64)
                last = (p.o + n + r.stride - 1) // r.stride - 1
                c = z3.And(z3.ULT(i, L), z3.ULT(to_bv(last, 64), L - i)) if last else z3.ULT(i, L)
                s.prove(st, c, f'memory-safety: {what} inside {r.name}')
        elif r.size is not None:
            if p.o < 0 or p.o + n > r.size:
                s.prove(st, False, f'memory-safety: {what} at offset {p.o} size {n} outside {r.name} (size {r.size})'); raise PathEnd()
    def load(s, st, p, t):
        T = s.T[t]
        if T['k'] == 'struct': return [s.load(st, s.padd(st, p, fo), ft) for fo, ft in T['f']]
        if T['k'] in ('array', 'vec'):
            es = s.T[T['e']]['size']; return [s.load(st, s.padd(st, p, i * es), T['e']) for i in range(T['n'])]
        if isinstance(p, Tok):
            if p.k[0] == 'vt': return Tok('vfn', p.k[1], (p.k[2] if len(p.k) > 2 else 0) // 8)
        n = T['store']
        s.bounds(st, p, n, 'read')
        v = s.load_raw(st, p, n, T)
        return v
    def typed(s, v, T):
        if T['k'] == 'int' and T['w'] == 1 and not isinstance(v, Undef):
            if is_conc(v): return v & 1
            if z3.is_bool(v): return v
            if z3.is_bv(v): return norm(z3.Extract(0, 0, v) == 1)
        return v
    def load_raw(s, st, p, n, T):
        r = st.regs[p.r]
        if r.stride and (not r.cells or not is_conc(p.i)): return s.typed(s.load_seq(st, r, p, n, T), T)
        if r.stride:
            k = p.i * r.stride + p.o
        else: k = p.o
        c = r.cells.get(k)
        if c is not None and c[0] == n: return s.typed(c[1], T)
        return s.typed(s.load_cells(st, r, k, n, T), T)
    def load_cells(s, st, r, k, n, T):
        # compose from overlapping integer cells
        parts = {}
        for o, (sz, v) in r.cells.items():
            if o < k + n and o + sz > k:
                parts[o] = (sz, v)
        if not parts:
            v = s.fresh_of(st, T, f'{r.name}+{k}', r, k)
            st.wregion(r.id).cells[k] = (n, v)
            return v
        if T['k'] == 'ptr': raise Unsupported(f'pointer load overlapping cells in {r.name}+{k}: {parts}')
        bytes_ = [None] * n
        for o, (sz, v) in parts.items():
            if isinstance(v, Undef): continue
            if not (is_conc(v) or z3.is_bv(v) or z3.is_bool(v)): raise Unsupported(f'partial load of abstract value in {r.name}+{k}: {v}')
            for b in range(sz):
                if k <= o + b < k + n:
                    bytes_[o + b - k] = mask(v >> (8 * b), 8) if is_conc(v) else (z3.Extract(8 * b + 7, 8 * b, to_bv(v, sz * 8)))
        for i in range(n):
            if bytes_[i] is None: bytes_[i] = z3.BitVec(fresh_name(f'uninit_{r.name}+{k+i}'), 8)
        if all(is_conc(b) for b in bytes_): return sum(b << (8 * i) for i, b in enumerate(bytes_))
        e = [to_bv(b, 8) for b in reversed(bytes_)]
        return norm(z3.Concat(*e)) if n > 1 else norm(e[0])
    def fresh_of(s, st, T, hint, r=None, off=None):
        if r is not None and r.hook:
            v = r.hook(s, st, r, off, T)
            if v is not None: return v
        if T['k'] == 'int':
            if T['w'] == 1: return z3.Bool(fresh_name(hint))
            return z3.BitVec(fresh_name(hint), T['w'])
        if T['k'] == 'fp': return z3.BitVec(fresh_name(hint), T['w'])
        if T['k'] == 'ptr':
            if r is not None and r.meta and 'vclass' in (r.meta or {}) and off == 0: return Tok('vt', r.meta['vclass'])
            return UNDEF
        raise Unsupported('fresh of ' + T['k'])
    def load_seq(s, st, r, p, n, T):
        bits = n * 8
        if r.hook:
            v = r.hook(s, st, r, (p.i, p.o), T)
            if v is not None: return v
        if r.stride == 1:
            a = r.arrs.get(0)
            if a is None:
                a = z3.Array(fresh_name(r.name), BV64, bvw(8)); st.wregion(r.id).arrs[0] = a
            i = to_bv(p.i, 64)
            e = [z3.Select(a, i + k) for k in range(n)]
            return norm(z3.Concat(*reversed(e)) if n > 1 else e[0])
        a = r.arrs.get(p.o)
        if a is None:
            for o2, a2 in r.arrs.items():
                rs = a2.range()
                if isinstance(rs, z3.BitVecSortRef) and o2 <= p.o and p.o + n <= o2 + rs.size() // 8 and T['k'] != 'ptr':
                    lo = (p.o - o2) * 8
                    return norm(z3.Extract(lo + bits - 1, lo, z3.Select(a2, to_bv(p.i, 64))))
            if T['k'] == 'ptr': raise Unsupported(f'pointer load from sequence region {r.name} field {p.o}')
            a = z3.Array(fresh_name(f'{r.name}.{p.o}'), BV64, bvw(bits)); st.wregion(r.id).arrs[p.o] = a
        if a.range() != bvw(bits) if isinstance(a.range(), z3.BitVecSortRef) else False:
            if a.range().size() > bits: return norm(z3.Extract(bits - 1, 0, z3.Select(a, to_bv(p.i, 64))))
            raise Unsupported(f'seq load width mismatch {r.name}.{p.o}')
        v = z3.Select(a, to_bv(p.i, 64))
        return norm(v) if z3.is_bv(v) else v
    def store(s, st, p, v, t):
        T = s.T[t]
        if T['k'] == 'struct':
            if isinstance(v, Undef): return
            for (fo, ft), x in zip(T['f'], v): s.store(st, s.padd(st, p, fo), x, ft)
            return
        if T['k'] in ('array', 'vec'):
            es = s.T[T['e']]['size']
            for i, x in enumerate(v): s.store(st, s.padd(st, p, i * es), x, T['e'])
            return
        n = T['store']
        s.bounds(st, p, n, 'write')
        if T['k'] == 'int' and T['w'] == 1 and not isinstance(v, Undef): v = to_bv(v, 8) if not is_conc(v) else v & 1
        s.store_raw(st, p, n, v)
    def store_raw(s, st, p, n, v):
        r = st.wregion(p.r)
        if r.const:
            s.prove(st, False, f'memory-safety: write to const {r.name}'); raise PathEnd()
        if r.stride and not (r.cells and is_conc(p.i)):
            st.writes.add((p.r, 'seq', p.o))
            if isinstance(v, Undef): v = z3.BitVec(fresh_name('undef'), n * 8)
            if is_ptr(v): raise Unsupported(f'pointer store in sequence region {r.name}')
            if r.stride == 1:
                a = r.arrs.get(0)
                if a is None: a = z3.Array(fresh_name(r.name), BV64, bvw(8))
                i = to_bv(p.i, 64)
                for k in range(n):
                    b = z3.BitVecVal(mask(v >> (8 * k), 8), 8) if is_conc(v) else z3.simplify(z3.Extract(8 * k + 7, 8 * k, to_bv(v, 8 * n)))
                    a = z3.Store(a, i + k, b)
                r.arrs[0] = a; return
            a = r.arrs.get(p.o)
            if a is None: a = z3.Array(fresh_name(f'{r.name}.{p.o}'), BV64, bvw(n * 8) if not isinstance(v, z3.ExprRef) else v.sort())
            r.arrs[p.o] = z3.Store(a, to_bv(p.i, 64), to_bv(v, n * 8) if is_conc(v) else v)
            return
        k = p.i * r.stride + p.o if r.stride else p.o
        st.writes.add((p.r, k, n))
        s.cell_clear(r, k, n)
        r.cells[k] = (n, v)
    def cell_clear(s, r, k, n):
        c = r.cells.get(k)
        if c is not None and c[0] == n: return
        kill = [o for o, (sz, v) in r.cells.items() if o < k + n and o + sz > k]
        for o in kill:
            sz, v = r.cells.pop(o)
            # keep non-overlapped bytes of integer cells
            if o < k or o + sz > k + n:
                if isinstance(v, Undef): continue
                if not (is_conc(v) or z3.is_bv(v) or z3.is_bool(v)): continue
                for b in range(sz):
                    if not (k <= o + b < k + n):
                        r.cells[o + b] = (1, mask(v >> (8 * b), 8) if is_conc(v) else z3.simplify(z3.Extract(8 * b + 7, 8 * b, to_bv(v, sz * 8))))
    # convenience for specs
    def rd(s, st, p, bits):
        return s.load_raw(st, p, bits // 8, {'k': 'int', 'w': bits, 'store': bits // 8})
    def rdp(s, st, p): return s.load_raw(st, p, 8, {'k': 'ptr', 'store': 8})
    def wr(s, st, p, bits, v): s.store_raw(st, p, bits // 8, v)
    def wrp(s, st, p, v): s.store_raw(st, p, 8, v)
    def memcpy(s, st, d, src, n):
        if is_conc(n):
            if n == 0: return
            s.bounds(st, src, n, 'read'); s.bounds(st, d, n, 'write')
            rs = st.regs[src.r]; rd = st.regs[d.r]
            if (rs.stride and not (rs.cells and is_conc(src.i))) or (rd.stride and not (rd.cells and is_conc(d.i))):
                if n > 4096: raise Unsupported('large sequence copy')
                if (rs.stride or 1) == 1 and (rd.stride or 1) == 1 or True:
                    vals = [s.load_raw(st, s.padd(st, src, k), 1, {'k': 'int', 'w': 8, 'store': 1}) for k in range(n)]
                    for k in range(n): s.store_raw(st, s.padd(st, d, k), 1, vals[k])
                return
            ks = (src.i * rs.stride if rs.stride else 0) + src.o; kd = (d.i * rd.stride if rd.stride else 0) + d.o
            items = [(o, sz, v) for o, (sz, v) in rs.cells.items() if o < ks + n and o + sz > ks]
            w = st.wregion(d.r)
            if w.const: s.prove(st, False, f'memory-safety: write to const {w.name}'); raise PathEnd()
            new = []
            cov = set()
            for o, sz, v in items:
                if o >= ks and o + sz <= ks + n: new.append((kd + o - ks, sz, v)); cov.update(range(o, o + sz))
                else:
                    for b in range(sz):
                        if ks <= o + b < ks + n and not isinstance(v, Undef):
                            new.append((kd + o + b - ks, 1, mask(v >> (8 * b), 8) if is_conc(v) else z3.simplify(z3.Extract(8 * b + 7, 8 * b, to_bv(v, sz * 8))))); cov.add(o + b)
            if rs.lazy and len(cov) < n:
                # materialise lazily initialised bytes so that both copies agree
                w0 = st.wregion(src.r)
                for b in range(ks, ks + n):
                    if b not in cov:
                        x = z3.BitVec(fresh_name(f'{rs.name}+{b}'), 8); w0.cells[b] = (1, x); new.append((kd + b - ks, 1, x))
            st.writes.add((d.r, kd, n))
            w = st.wregion(d.r)
            s.cell_clear(w, kd, n)
            for o in [o for o in w.cells if kd <= o < kd + n]: w.cells.pop(o, None)
            for o, sz, v in new: w.cells[o] = (sz, v)
            return
        # symbolic length: byte sequences only
        rs = st.regs[src.r] if src.r else None; rd = st.regs[d.r] if d.r else None
        if rs is None or rd is None or rs.stride != 1 or rd.stride != 1: raise NeedConc(n)
        nn = to_bv(n, 64); si = to_bv(src.i, 64); di = to_bv(d.i, 64)
        if rs.length is not None: s.prove(st, z3.And(z3.ULE(si, rs.length), z3.ULE(nn, to_bv(rs.length, 64) - si)), f'memory-safety: block read inside {rs.name}')
        if rd.length is not None: s.prove(st, z3.And(z3.ULE(di, rd.length), z3.ULE(nn, to_bv(rd.length, 64) - di)), f'memory-safety: block write inside {rd.name}')
        a = rs.arrs.get(0); b = rd.arrs.get(0)
        if a is None: a = z3.Array(fresh_name(rs.name), BV64, bvw(8)); st.wregion(src.r).arrs[0] = a
        if b is None: b = z3.Array(fresh_name(rd.name), BV64, bvw(8))
        j = z3.BitVec(fresh_name('j'), 64)
        st.wregion(d.r).arrs[0] = z3.Lambda([j], z3.If(z3.ULT(j - di, nn), z3.Select(a, j - di + si), z3.Select(b, j)))
        st.writes.add((d.r, 'seq', 0))
    # ------------------------------------------------------------------ execution
    def call(s, st, fn, args, on_return=None):
        f = s.m.funcs[fn]
        if f['decl']: raise Unsupported('call of external ' + f['dem'])
        fr = Frame(fn)
        fr.on_return = on_return
        for i, a in enumerate(args):
            fr.loc[('a', i)] = a
        if len(st.frames) > 120: raise Unsupported('call depth')
        st.frames.append(fr)
        s.executed.add(f['dem'])
    def run(s, st, fn, args):
        """run fn to completion; returns list of final states with st.done = ('ret', v) | ('exc', e)"""
        base = len(st.frames)
        s.call(st, fn, args)
        return s.explore(st, base)
    def explore(s, st, base, stop=None):
        work = [st]; out = []
        while work:
            x = work.pop()
            try:
                res = s.step_until_fork(x, base, stop)
            except PathEnd:
                continue
            for y in res:
                if y.done is not None: out.append(y)
                else: work.append(y)
        return out
    def step_until_fork(s, st, base, stop):
        while True:
            if len(st.frames) == base: return [st]
            if st.done is not None: return [st]
            s.steps += 1
            if s.steps > s.max_steps: raise Undecided('step limit')
            fr = st.frames[-1]
            f = s.m.funcs[fr.fn]
            ins = f['blocks'][fr.blk]['i'][fr.ip]
            try:
                r = s.exec(st, fr, ins, base, stop)
            except NeedConc as e:
                r = s.concretize(st, e.expr)
            except Unsupported as e:
                if not s.feasible(st): raise PathEnd()
                if not getattr(e, 'loc', None):
                    e.loc = s.where(st); e.args = (f"{e.args[0]}  [at {e.loc}; stack: {' <- '.join(s.m.funcs[x.fn]['dem'][:60] for x in reversed(st.frames[-6:]))}]",)
                raise
            if r is not None: return r
    def concretize(s, st, expr, limit=70):
        """fork over all feasible values of expr (complete enumeration)"""
        out = []; block = []
        while True:
            r, sv = s.check(st, block)
            if r == z3.unsat: break
            if r == z3.unknown: raise Undecided('concretize')
            v = sv.model().eval(expr, model_completion=True)
            t = st.fork(); t.pc.append(expr == v); s.subst(t, expr, v); out.append(t); block.append(expr != v)
            if len(out) > limit: raise Unsupported(f'too many values for {str(expr)[:80]}')
        if not out: raise PathEnd()
        return out
    def subst(s, st, expr, v):
        fr = st.frames[-1]
        for k, x in list(fr.loc.items()):
            if isinstance(x, z3.ExprRef) and z3.is_bv(x):
                y = z3.substitute(x, (expr, v))
                fr.loc[k] = norm(y)
    def val(s, st, fr, o):
        k = o[0]
        if k == 'v':
            return fr.loc[o[1]]
        if k == 'a': return fr.loc[('a', o[1])]
        if k == 'c': return mask(int(o[1]), o[2])
        return s.const(st, o)
    def goto(s, st, fr, target, base, stop):
        """enter block: evaluate phis; handle loop headers. returns None or list of states"""
        src = fr.blk
        loops = s.m.loops(fr.fn)
        vals = {}
        blk = s.m.funcs[fr.fn]['blocks'][target]['i']
        nphi = 0
        for ins in blk:
            if ins['op'] != 'phi': break
            nphi += 1
            for b, v in ins['in']:
                if b == src: vals[ins['id']] = s.val(st, fr, v); break
            else: raise Unsupported('phi')
        # drop loop contexts we left
        for h in list(fr.loopctx):
            if h != target and target not in loops[h]:
                if fr.loopctx[h][0] == 'trial': raise PathEnd()
                del fr.loopctx[h]
        fr.prev = src; fr.blk = target; fr.ip = nphi
        if target in loops:
            if src in loops[target]:
                ctx = fr.loopctx.get(target)
                if ctx is not None and ctx[0] == 'inv':
                    for k, v in vals.items(): fr.loc[k] = v
                    ctx[1].back(s, st, fr, target, ctx[2])
                    raise PathEnd()
                if ctx is not None and ctx[0] == 'trial':
                    for k, v in vals.items(): fr.loc[k] = v
                    ctx[1](st); raise PathEnd()
                n = fr.unroll.get(target, 0) + 1
                fr.unroll[target] = n
                sp = s.loop_spec(st, fr, target)
                if sp is not None and getattr(sp, 'peel', 0) == n:
                    for k, v in vals.items(): fr.loc[k] = v
                    if sp.merge: return sp.enter_merged(s, st, fr, target, base)
                    return sp.enter(s, st, fr, target, base)
                if n > s.max_unroll: raise Undecided('loop without invariant exceeds unrolling limit at ' + s.where(st))
                for k, v in vals.items(): fr.loc[k] = v
                return None
            fr.unroll[target] = 0
            for k, v in vals.items(): fr.loc[k] = v
            spec = s.loop_spec(st, fr, target)
            if spec is not None and getattr(spec, 'cut', None): spec.cut.apply(s, st, fr, target)
            if spec is not None and not getattr(spec, 'peel', 0):
                if spec.merge: return spec.enter_merged(s, st, fr, target, base)
                return spec.enter(s, st, fr, target, base)
            return None
        for k, v in vals.items(): fr.loc[k] = v
        return None
    def loop_spec(s, st, fr, header):
        dem = s.m.funcs[fr.fn]['dem']
        for rx, sp in s.loop_specs:
            if (rx(s, st, fr, header) if callable(rx) else re.search(rx, dem)): return sp
        return None
    def branch(s, st, cond):
        """returns list of (state, truth)"""
        c = norm(cond)
        if is_conc(c): return [(st, bool(c))]
        c = to_bool(c)
        ft = s.feasible(st, c); 
        ff = s.feasible(st, z3.Not(c)) if ft else True
        if ft and not ff: return [(st, True)]
        if ff and not ft:
            return [(st, False)]
        t = st.fork(); st.pc.append(c); t.pc.append(z3.Not(c))
        return [(st, True), (t, False)]
    def set(s, fr, ins, v): fr.loc[ins['id']] = v
    def exec(s, st, fr, ins, base, stop):
        op = ins['op']; a = ins['a'] if 'a' in ins else []
        if op == 'load':
            p = s.val(st, fr, a[0])
            fr.loc[ins['id']] = s.load(st, p, ins['t']); fr.ip += 1; return None
        if op == 'store':
            v = s.val(st, fr, a[0]); p = s.val(st, fr, a[1])
            s.store(st, p, v, ins['vt']); fr.ip += 1; return None
        if op == 'getelementptr':
            p = s.val(st, fr, a[0])
            if isinstance(p, Undef): raise Unsupported('gep on undef')
            for o, scale, w in ins['vars']:
                i = s.val(st, fr, o)
                if isinstance(i, Undef): raise Unsupported('undef index')
                if w < 64: i = mask(sgn(i, w), 64) if is_conc(i) else norm(z3.SignExt(64 - w, i))
                else: i = norm(i)
                p = s.padd_sym(st, p, i, scale)
            fr.loc[ins['id']] = s.padd(st, p, ins['off']); fr.ip += 1; return None
        if op == 'alloca':
            n = s.T[ins['at']].get('size', 8)
            p = st.alloc('%' + (ins.get('nm') or f"local{ins['id']}"), size=n, origin='stack')
            fr.allocas.append(p.r)
            fr.loc[ins['id']] = p; fr.ip += 1; return None
        if op == 'br':
            if len(ins['s']) == 1: return s.goto(st, fr, ins['s'][0], base, stop)
            c = s.val(st, fr, a[0])
            if isinstance(c, Undef): raise Unsupported('branch on undef')
            res = s.branch(st, c)
            out = []
            for x, tr in res:
                try:
                    r = s.goto(x, x.frames[-1], ins['s'][0 if tr else 1], base, stop)
                    out += [x] if r is None else r
                except PathEnd: pass
            if len(res) == 1 and len(out) == 1 and out[0] is st: return None
            if not out: raise PathEnd()
            return out
        if op == 'switch':
            c = s.val(st, fr, a[0])
            if is_conc(c):
                for cv, b in ins['cases']:
                    if mask(int(cv[1]), cv[2]) == c: return s.goto(st, fr, b, base, stop)
                return s.goto(st, fr, ins['def'], base, stop)
            out = []; neg = []
            for cv, b in ins['cases']:
                e = c == z3.BitVecVal(int(cv[1]), cv[2]); neg.append(z3.Not(e))
                if s.feasible(st, e):
                    x = st.fork(); x.pc.append(e)
                    try:
                        r = s.goto(x, x.frames[-1], b, base, stop); out += [x] if r is None else r
                    except PathEnd: pass
            if s.feasible(st, *neg):
                x = st.fork(); x.pc += neg
                try:
                    r = s.goto(x, x.frames[-1], ins['def'], base, stop); out += [x] if r is None else r
                except PathEnd: pass
            if not out: raise PathEnd()
            return out
        if op in ('call', 'invoke'): return s.exec_call(st, fr, ins, base, stop)
        if op == 'ret':
            v = s.val(st, fr, a[0]) if a else None
            return s.do_return(st, fr, v, base)
        if op == 'icmp':
            fr.loc[ins['id']] = s.icmp(st, ins['p'], s.val(st, fr, a[0]), s.val(st, fr, a[1]), s.T[ins['ot']]); fr.ip += 1; return None
        if op in BINOPS:
            x, y = s.val(st, fr, a[0]), s.val(st, fr, a[1])
            fr.loc[ins['id']] = s.binop(st, op, x, y, s.T[ins['t']].get('w'), ins); fr.ip += 1; return None
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            v = s.val(st, fr, a[0])
            fr.loc[ins['id']] = s.cast(st, op, v, s.T[ins['st']] if 'st' in ins else None, s.T[ins['t']]); fr.ip += 1; return None
        if op == 'select':
            c = s.val(st, fr, a[0]); x = s.val(st, fr, a[1]); y = s.val(st, fr, a[2])
            c = norm(c)
            if is_conc(c): fr.loc[ins['id']] = x if c else y; fr.ip += 1; return None
            T = s.T[ins['t']]
            if T['k'] == 'int' and not isinstance(x, Undef) and not isinstance(y, Undef):
                if T['w'] == 1: v = z3.If(to_bool(c), to_bool(x), to_bool(y))
                else: v = z3.If(to_bool(c), to_bv(x, T['w']), to_bv(y, T['w']))
                fr.loc[ins['id']] = norm(v); fr.ip += 1; return None
            out = []
            for z, tr in s.branch(st, c):
                f2 = z.frames[-1]; f2.loc[ins['id']] = x if tr else y; f2.ip += 1; out.append(z)
            return out
        if op == 'extractvalue':
            v = s.val(st, fr, a[0])
            if v is None: raise Unsupported('extractvalue of nothing')
            for k in ins['ix']: v = UNDEF if isinstance(v, Undef) else v[k]
            fr.loc[ins['id']] = v; fr.ip += 1; return None
        if op == 'insertvalue':
            v = s.val(st, fr, a[0]); x = s.val(st, fr, a[1])
            T = s.T[ins['t']]
            def ins_(v, ix, T):
                if not ix: return x
                n = len(T['f']) if T['k'] == 'struct' else T['n']
                v = list(v) if isinstance(v, list) else [UNDEF] * n
                v[ix[0]] = ins_(v[ix[0]], ix[1:], s.T[T['f'][ix[0]][1]] if T['k'] == 'struct' else s.T[T['e']]); return v
            fr.loc[ins['id']] = ins_(v, ins['ix'], T); fr.ip += 1; return None
        if op == 'landingpad':
            e = st.exc; st.exc = None
            sel = s.lp_selector(st, fr, ins, e)
            fr.loc[ins['id']] = [('excptr', e), sel]
            st.caught.append(('pending', e)); st.caught.pop()
            fr.ip += 1; return None
        if op == 'resume':
            v = s.val(st, fr, a[0])
            e = v[0][1] if isinstance(v[0], tuple) else v[0]
            return s.unwind(st, e, base, pop=True)
        if op == 'unreachable':
            s.prove(st, False, 'unreachable code is not reached'); raise PathEnd()
        if op == 'fcmp':
            fr.loc[ins['id']] = s.fcmp(st, ins['p'], s.val(st, fr, a[0]), s.val(st, fr, a[1]), s.T[ins['ot']]['w']); fr.ip += 1; return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            w = s.T[ins['t']]['w']; xs = [s.fp(s.val(st, fr, o), w) for o in a]
            rm = z3.RNE()
            v = {'fadd': lambda: z3.fpAdd(rm, *xs), 'fsub': lambda: z3.fpSub(rm, *xs), 'fmul': lambda: z3.fpMul(rm, *xs), 'fdiv': lambda: z3.fpDiv(rm, *xs), 'fneg': lambda: z3.fpNeg(xs[0])}[op]()
            fr.loc[ins['id']] = norm(z3.fpToIEEEBV(v)); fr.ip += 1; return None
        if op == 'atomicrmw':
            p = s.val(st, fr, a[0]); x = s.val(st, fr, a[1]); T = s.T[ins['t']]
            old = s.load(st, p, ins['t'])
            new = {'add': lambda: s.binop(st, 'add', old, x, T['w'], {}), 'sub': lambda: s.binop(st, 'sub', old, x, T['w'], {}), 'xchg': lambda: x}[ins['rmw']]()
            s.store(st, p, new, ins['t']); fr.loc[ins['id']] = old; fr.ip += 1; return None
        if op == 'fence': fr.ip += 1; return None
        raise Unsupported('instruction ' + op)
    def fp(s, v, w):
        return z3.fpBVToFP(to_bv(v, w), z3.FPSort(8, 24) if w == 32 else z3.FPSort(11, 53))
    def fcmp(s, st, p, x, y, w):
        X, Y = s.fp(x, w), s.fp(y, w)
        nan = z3.Or(z3.fpIsNaN(X), z3.fpIsNaN(Y))
        base = {'eq': z3.fpEQ, 'ne': lambda a, b: z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ}
        if p == 'ord': return norm(z3.Not(nan))
        if p == 'uno': return norm(nan)
        b = base[p[1:]](X, Y)
        return norm(z3.And(z3.Not(nan), b) if p[0] == 'o' else z3.Or(nan, b))
    def icmp(s, st, p, x, y, T):
        if isinstance(x, Undef) or isinstance(y, Undef): raise Unsupported('icmp on undef')
        if is_ptr(x) or is_ptr(y):
            if is_conc(x): x = Ptr(0, x, 0)
            if is_conc(y): y = Ptr(0, y, 0)
            if p in ('eq', 'ne'):
                e = s.peq(x, y, st)
                return e if p == 'eq' else (int(not e) if is_conc(e) else norm(z3.Not(to_bool(e))))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                r = st.regs.get(x.r)
                if r is not None and r.stride:
                    assert x.o == y.o
                    x, y = x.i, y.i
                else: x, y = x.o, y.o
                T = {'w': 64, 'k': 'int'}
            else: raise Unsupported(f'pointer order {x} {y}')
        w = T.get('w', 64)
        if is_conc(x) and is_conc(y):
            X, Y = (sgn(x, w), sgn(y, w)) if p[0] == 's' else (x, y)
            return int({'eq': X == Y, 'ne': X != Y, 'lt': X < Y, 'gt': X > Y, 'le': X <= Y, 'ge': X >= Y}[p if p in ('eq', 'ne') else p[1:]])
        if w == 1:
            X, Y = to_bool(x), to_bool(y)
            if p == 'eq': return norm(X == Y)
            if p == 'ne': return norm(X != Y)
            x, y = to_bv(x, 1), to_bv(y, 1)
        if not z3.is_bv(x) and isinstance(x, z3.ExprRef) and not z3.is_bool(x): raise Unsupported(f'icmp on abstract value {x}')
        X, Y = to_bv(x, w), to_bv(y, w)
        r = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.ULT(X, Y), 'ugt': lambda: z3.UGT(X, Y), 'ule': lambda: z3.ULE(X, Y), 'uge': lambda: z3.UGE(X, Y),
             'slt': lambda: X < Y, 'sgt': lambda: X > Y, 'sle': lambda: X <= Y, 'sge': lambda: X >= Y}[p]()
        return norm(r)
    def binop(s, st, op, x, y, w, ins):
        if isinstance(x, Undef) or isinstance(y, Undef):
            raise Unsupported('arithmetic on undef')
        if isinstance(x, FnPtr) and op == 'and' and y == 1: return 0   # functions are aligned (virtual member bit of the ABI)
        if isinstance(x, FnPtr) or isinstance(y, FnPtr): raise Unsupported('arithmetic on a function')
        if isinstance(x, Ptr) and op in ('and',): # alignment tests on pointers
            raise Unsupported('bit test on pointer')
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op == 'sub': return s.psub(x, y, st)
        if isinstance(x, Ptr) and op in ('add', 'sub'):
            return s.padd_sym(st, x, y if op == 'add' else s.binop(st, 'sub', 0, y, 64, {}), 1)
        if is_conc(x) and is_conc(y):
            X, Y = sgn(x, w), sgn(y, w)
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            elif op == 'mul': r = x * y
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op in ('shl', 'lshr', 'ashr'):
                if y >= w:
                    s.prove(st, False, 'shift amount in range'); raise PathEnd()
                r = x << y if op == 'shl' else x >> y if op == 'lshr' else X >> y
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if y == 0: s.prove(st, False, 'division by zero'); raise PathEnd()
                if op == 'udiv': r = x // y
                elif op == 'urem': r = x % y
                else:
                    q = abs(X) // abs(Y); q = -q if (X < 0) != (Y < 0) else q
                    r = q if op == 'sdiv' else X - q * Y
            return mask(r, w)
        if w == 1:
            X, Y = to_bool(x), to_bool(y)
            return norm({'and': lambda: z3.And(X, Y), 'or': lambda: z3.Or(X, Y), 'xor': lambda: z3.Xor(X, Y), 'add': lambda: z3.Xor(X, Y), 'sub': lambda: z3.Xor(X, Y)}[op]())
        X, Y = to_bv(x, w), to_bv(y, w)
        if op == 'add': r = X + Y
        elif op == 'sub': r = X - Y
        elif op == 'mul': r = X * Y
        elif op == 'and': r = X & Y
        elif op == 'or': r = X | Y
        elif op == 'xor': r = X ^ Y
        elif op in ('shl', 'lshr', 'ashr'):
            s.prove(st, z3.ULT(Y, w), 'shift amount in range')
            r = X << Y if op == 'shl' else z3.LShR(X, Y) if op == 'lshr' else X >> Y
        else:
            s.prove(st, Y != 0, 'division by zero')
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem}[op](X, Y)
        if ins.get('nsw') and op in ('add', 'sub', 'mul') and s.ubsan:
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
            else: c = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
            s.prove(st, c, f'no signed overflow ({op})')
        return norm(r)
    def cast(s, st, op, v, S, T):
        if isinstance(v, Undef) and op != 'freeze': return UNDEF
        if op in ('bitcast', 'freeze'): return v
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            if is_ptr(v): return v
            return Ptr(0, v, 0)
        if is_ptr(v):
            raise Unsupported(f'{op} on pointer')
        if op in ('zext', 'sext', 'trunc'):
            w, sw = T['w'], S['w']
            if is_conc(v):
                return mask(v, w) if op != 'sext' else mask(sgn(v, sw), w)
            if sw == 1: 
                b = to_bool(v)
                return norm(z3.If(b, z3.BitVecVal(1 if op == 'zext' else -1, w), z3.BitVecVal(0, w)))
            if op == 'trunc':
                if w == 1: return norm(z3.Extract(0, 0, v) == 1)
                return norm(z3.Extract(w - 1, 0, v))
            return norm((z3.ZeroExt if op == 'zext' else z3.SignExt)(w - sw, v))
        rm = z3.RNE(); fs = lambda w: z3.FPSort(8, 24) if w == 32 else z3.FPSort(11, 53)
        if op == 'uitofp': return norm(z3.fpToIEEEBV(z3.fpUnsignedToFP(rm, to_bv(v, S['w']), fs(T['w']))))
        if op == 'sitofp': return norm(z3.fpToIEEEBV(z3.fpSignedToFP(rm, to_bv(v, S['w']), fs(T['w']))))
        if op in ('fpext', 'fptrunc'):
            if S['w'] == 80 or T['w'] == 80: raise Unsupported('fp80')
            return norm(z3.fpToIEEEBV(z3.fpFPToFP(rm, s.fp(v, S['w']), fs(T['w']))))
        if op == 'fptoui': return norm(z3.fpToUBV(z3.RTZ(), s.fp(v, S['w']), bvw(T['w'])))
        if op == 'fptosi': return norm(z3.fpToSBV(z3.RTZ(), s.fp(v, S['w']), bvw(T['w'])))
        raise Unsupported(op)
    # ------------------------------------------------------------------ calls / returns / exceptions
    def do_return(s, st, fr, v, base):
        if s.in_trial(fr): raise PathEnd()
        for r in fr.allocas: st.regs.pop(r, None)
        st.frames.pop()
        if fr.on_return is not None:
            res = fr.on_return(s, st, v)
            if res is not None: return res
            if len(st.frames) == base and st.done is None: st.done = ('ret', v); return [st]
            return None
        if len(st.frames) == base:
            st.done = ('ret', v); return [st]
        return s.after_call(st, v, base)
    def after_call(s, st, v, base=0):
        """the call instruction at the top frame's ip completed normally with value v"""
        fr = st.frames[-1]
        ins = s.m.funcs[fr.fn]['blocks'][fr.blk]['i'][fr.ip]
        if s.T[ins['t']]['k'] != 'void': fr.loc[ins['id']] = v
        if ins['op'] == 'invoke':
            r = s.goto(st, fr, ins['nd'], base, None)
            return r
        fr.ip += 1
        return None
    def throw(s, st, exc, base=0):
        """raise exception at the current call instruction"""
        return s.unwind(st, exc, base, pop=False)
    def in_trial(s, fr): return any(c[0] == 'trial' for c in fr.loopctx.values())
    def unwind(s, st, exc, base, pop):
        first = True
        while True:
            if first and pop:
                if s.in_trial(st.frames[-1]): raise PathEnd()
                fr = st.frames.pop()
                for r in fr.allocas: st.regs.pop(r, None)
            first = False
            if len(st.frames) <= base:
                st.done = ('exc', exc); st.exc = exc; return [st]
            fr = st.frames[-1]
            ins = s.m.funcs[fr.fn]['blocks'][fr.blk]['i'][fr.ip]
            if ins['op'] == 'invoke':
                lp = s.m.funcs[fr.fn]['blocks'][ins['ud']]['i']
                st.exc = exc
                r = s.goto(st, fr, ins['ud'], base, None)
                return r if r is not None else [st]
            if s.m.funcs[fr.fn].get('nounwind') or ins.get('nt'):
                # std::terminate
                st.done = ('terminate', exc); return [st]
            if s.in_trial(fr): raise PathEnd()
            st.frames.pop()
            for r in fr.allocas: st.regs.pop(r, None)
    STD_BASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
                 '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt19bad_optional_access': ['_ZTISt9exception'], '_ZTISt12domain_error': ['_ZTISt11logic_error'], '_ZTISt18bad_variant_access': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error']}
    def ti_bases(s, name):
        if name in s.STD_BASES: return s.STD_BASES[name]
        g = s.m.globals.get(name)
        out = []
        if g and 'init' in g:
            def walk(c):
                if isinstance(c, list):
                    if len(c) == 2 and c[0] == 'g' and c[1].startswith('_ZTI'): out.append(c[1])
                    for x in c:
                        if isinstance(x, list): walk(x)
            walk(g['init'])
        return out
    def ti_sub(s, name, base):
        if name == base: return True
        return any(s.ti_sub(b, base) for b in s.ti_bases(name))
    def lp_selector(s, st, fr, ins, e):
        for o, isc in zip(ins['a'], ins['catch']):
            if not isc: continue
            if o[0] == 'null': return 1
            if e.ti is None: return ('ti?', e)
            if s.ti_sub(e.ti, o[1]): return ('ti', o[1])
        return 0
    def exec_call(s, st, fr, ins, base, stop):
        c = ins['callee']
        intr = ins.get('intr')
        if intr: return s.intrinsic(st, fr, ins, intr)
        args = [s.val(st, fr, o) if o[0] != 'md' else None for o in ins['a']]
        if c[0] == 'f': name = c[1]
        else:
            f = s.val(st, fr, c) if c[0] != 'asm' else None
            if isinstance(f, FnPtr): name = f.name
            elif isinstance(f, Tok):
                h = s.vfn_handlers.get(f.k[1])
                if h is None: raise Unsupported(f'indirect call {f}')
                return s.finish(st, h(s, st, f.k[2], args, ins), base)
            else: raise Unsupported(f'indirect call through {f}')
        if 'byval' in ins:
            k, t = ins['byval']
            n = s.T[t]['size']; p = st.alloc('byval', size=n, origin='stack'); fr.allocas.append(p.r)
            s.memcpy(st, p, args[k], n); args[k] = p
        return s.dispatch(st, name, args, ins, base)
    def dispatch(s, st, name, args, ins, base):
        ct = s.contracts.get(name)
        f = s.m.funcs[name]
        if ct is not None:
            s.contracted.add(f['dem'])
            return s.finish(st, ct.apply(s, st, args), base)
        h = s.model_for(name, f)
        if h is not None:
            r = h(s, st, args, f, ins)
            if r is not CONTINUE:
                s.modelled.add(f['dem'].split('(')[0][-160:])
                if r is FRAME: return None
                return s.finish(st, r, base)
        if f['decl']: raise Unsupported('external function ' + f['dem'])
        s.call(st, name, args)
        return None
    def finish(s, st, r, base):
        """r: value | [Outcome...]"""
        if isinstance(r, Outs):
            out = []
            for o in r.l:
                x = o[1]
                try:
                    if o[0] == 'ret':
                        q = s.after_call(x, o[2], base); out += [x] if q is None else q
                    elif o[0] == 'frame': out.append(x)
                    else:
                        out += s.throw(x, o[2], base)
                except PathEnd: pass
            if not out: raise PathEnd()
            return out
        return s.after_call(st, r, base)
    def model_for(s, name, f):
        if name in s._mcache: return s._mcache[name]
        h = None
        for rx, fn in s.models:
            if rx.search(f['dem']): h = fn; break
        s._mcache[name] = h
        return h
    def model(s, rx, fn, front=False):
        s.models.insert(0, (re.compile(rx), fn)) if front else s.models.append((re.compile(rx), fn))
        s._mcache.clear()
    def intrinsic(s, st, fr, ins, name):
        A = lambda k: s.val(st, fr, ins['a'][k])
        def done(v=None): return s.after_call(st, v)
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name in ('llvm.assume', 'llvm.donothing', 'llvm.experimental.noalias.scope.decl', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch'): return done(NULL if 'save' in name else None)
        if name in ('llvm.memcpy', 'llvm.memmove'):
            n = norm(A(2)); s.memcpy(st, A(0), A(1), n); return done()
        if name == 'llvm.memset':
            n = norm(A(2)); v = A(1); p = A(0)
            if not is_conc(n): raise NeedConc(n)
            if n:
                s.bounds(st, p, n, 'write')
                r = st.regs[p.r]
                if is_conc(v) and v == 0 and not r.stride:
                    w = st.wregion(p.r)
                    for o in [o for o in w.cells if p.o <= o < p.o + n]: w.cells.pop(o)
                    s.cell_clear(w, p.o, n)
                    o = p.o; e = p.o + n
                    while o < e:
                        k = 8 if o % 8 == 0 and o + 8 <= e else 4 if o % 4 == 0 and o + 4 <= e else 1
                        w.cells[o] = (k, ZERO8 if False else 0); o += k
                    st.writes.add((p.r, p.o, n))
                else:
                    for k in range(n): s.store_raw(st, s.padd(st, p, k), 1, v)
            return done()
        if name == 'llvm.eh.typeid.for':
            return done(('tid', ins['a'][0][1]))
        if name in ('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin'):
            x, y = A(0), A(1); w = s.T[ins['t']]['w']
            c = s.icmp(st, {'llvm.umax': 'ugt', 'llvm.umin': 'ult', 'llvm.smax': 'sgt', 'llvm.smin': 'slt'}[name], x, y, s.T[ins['t']])
            return done(x if c == 1 and is_conc(c) else y if is_conc(c) else norm(z3.If(to_bool(c), to_bv(x, w), to_bv(y, w))))
        if name == 'llvm.ctpop':
            x = A(0); w = s.T[ins['t']]['w']
            if is_conc(x): return done(bin(x).count('1'))
            r = z3.BitVecVal(0, w)
            for k in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
            return done(norm(r))
        if name in ('llvm.ctlz', 'llvm.cttz'):
            x = A(0); w = s.T[ins['t']]['w']
            zero_poison = norm(A(1))
            if is_conc(zero_poison) and zero_poison: s.prove(st, to_bv(x, w) != 0, 'count-zeros of zero')
            x = to_bv(x, w); r = z3.BitVecVal(w, w)
            rng = range(w) if name == 'llvm.ctlz' else range(w - 1, -1, -1)
            for k in rng: r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k if name == 'llvm.ctlz' else k, w), r)
            return done(norm(r))
        if name == 'llvm.bswap':
            x = A(0); w = s.T[ins['t']]['w']
            x = to_bv(x, w)
            return done(norm(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)])))
        if name in ('llvm.fshl', 'llvm.fshr'):
            x, y, z = A(0), A(1), A(2); w = s.T[ins['t']]['w']
            cat = z3.Concat(to_bv(x, w), to_bv(y, w)); sh = z3.ZeroExt(w, z3.URem(to_bv(z, w), z3.BitVecVal(w, w)))
            return done(norm(z3.Extract(2 * w - 1, w, cat << sh) if name == 'llvm.fshl' else z3.Extract(w - 1, 0, z3.LShR(cat, sh))))
        if name == 'llvm.abs':
            x = A(0); w = s.T[ins['t']]['w']; x = to_bv(x, w); return done(norm(z3.If(x < 0, -x, x)))
        if name == 'llvm.fabs':
            x = A(0); w = s.T[ins['t']]['w']; return done(norm(z3.Concat(z3.BitVecVal(0, 1), z3.Extract(w - 2, 0, to_bv(x, w)))))
        if name in ('llvm.trap', 'llvm.ubsantrap'):
            s.prove(st, False, 'no undefined behaviour (sanitizer trap unreachable)'); raise PathEnd()
        if name in ('llvm.expect', 'llvm.launder.invariant.group', 'llvm.strip.invariant.group', 'llvm.ssa.copy'): return done(A(0))
        if name == 'llvm.is.constant': return done(0)
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow', name)
        if m:
            x, y = A(0), A(1); w = s.T[s.T[ins['t']]['f'][0][1]]['w']; X, Y = to_bv(x, w), to_bv(y, w); sg = m[1] == 's'
            r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[m[2]]
            ext = z3.SignExt if sg else z3.ZeroExt
            f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}[m[2]]
            wide = f(ext(w, X), ext(w, Y))
            ov = wide != ext(w, r)
            return done([norm(r), norm(ov)])
        if name == 'llvm.objectsize': return done(mask(-1, 64))
        raise Unsupported('intrinsic ' + name)
    # ------------------------------------------------------------------ std runtime
    def _init_std(s):
        def opnew(e, st, a, f, ins):
            n = norm(a[0])
            if not is_conc(n): raise Unsupported('operator new with symbolic size')
            return st.alloc('heap', size=n, origin='heap')
        s.model(r'^operator new(\[\])?\(unsigned long(, std::(align_val_t|nothrow_t const&))?\)$', opnew)
        def opdel(e, st, a, f, ins):
            p = a[0]
            if isinstance(p, Ptr) and p.r and p.r in st.regs:
                r = st.wregion(p.r)
                if r.freed: e.prove(st, False, 'memory-safety: double free')
                r.freed = True
            return None
        s.model(r'^operator delete(\[\])?\(', opdel)
        def cxa_alloc(e, st, a, f, ins):
            return st.alloc('exception', size=norm(a[0]), origin='heap')
        s.model(r'^__cxa_allocate_exception$', cxa_alloc)
        s.model(r'^__cxa_free_exception$', lambda e, st, a, f, ins: None)
        def cxa_throw(e, st, a, f, ins):
            ti = e.gname(st, a[1])
            return Outs([('exc', st, Exc(ti, a[0]))])
        s.model(r'^__cxa_throw$', cxa_throw)
        def begin_catch(e, st, a, f, ins):
            x = a[0][1] if isinstance(a[0], tuple) else None
            st.caught.append(x)
            return x.obj if x is not None and x.obj is not None else NULL
        s.model(r'^__cxa_begin_catch$', begin_catch)
        def end_catch(e, st, a, f, ins):
            if st.caught: st.caught.pop()
            return None
        s.model(r'^__cxa_end_catch$', end_catch)
        def rethrow(e, st, a, f, ins): return Outs([('exc', st, st.caught[-1])])
        s.model(r'^__cxa_rethrow$', rethrow)
        s.model(r'^(std::terminate\(\)|__clang_call_terminate|std::__glibcxx_assert_fail|abort|__assert_fail)', lambda e, st, a, f, ins: e.fail(st, 'terminate/abort is not reached: ' + f['dem'][:40]))
        for n, ti in (('length_error', '_ZTISt12length_error'), ('logic_error', '_ZTISt11logic_error'), ('out_of_range(_fmt)?', '_ZTISt12out_of_range'), ('bad_alloc', '_ZTISt9bad_alloc'), ('bad_array_new_length', '_ZTISt9bad_alloc'), ('bad_function_call', '_ZTISt17bad_function_call'), ('bad_optional_access', '_ZTISt19bad_optional_access'), ('invalid_argument', '_ZTISt16invalid_argument'), ('bad_cast', '_ZTISt8bad_cast')):
            s.model(r'^std::__throw_' + n + r'\(', lambda e, st, a, f, ins, ti=ti: Outs([('exc', st, Exc(ti, st.alloc('exc', size=16, origin='heap')))]))
        s.model(r'^__throw_bad_optional_access|^std::__throw_bad_variant_access', lambda e, st, a, f, ins: Outs([('exc', st, Exc('_ZTISt19bad_optional_access', st.alloc('exc', size=16)))]))
        s.model(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|exception|domain_error|length_error)::(~)?(runtime_error|logic_error|out_of_range|invalid_argument|exception|domain_error|length_error)\(', lambda e, st, a, f, ins: None)
        s.model(r'^(strlen)$', model_strlen)
        s.model(r'^ldexp$', model_ldexp)
        s.model(r'^(__cxa_atexit|__cxa_guard_release|__cxa_guard_abort)$', lambda e, st, a, f, ins: 0)
        s.model(r'^__cxa_guard_acquire$', model_guard)
        s.model(r'^__errno_location$', lambda e, st, a, f, ins: st.alloc('errno', size=4, lazy=True))
    def fail(s, st, what):
        s.prove(st, False, what); raise PathEnd()
    def gname(s, st, p):
        for n, r in s.globals.items():
            if isinstance(p, Ptr) and r == p.r: return n
        return None

def model_strlen(e, st, a, f, ins):
    p = a[0]; n = 0
    while True:
        c = e.load_raw(st, e.padd(st, p, n), 1, {'k': 'int', 'w': 8, 'store': 1})
        if not is_conc(c): raise Unsupported('strlen of symbolic data')
        if c == 0: return n
        n += 1
def model_ldexp(e, st, a, f, ins):
    """ldexp(x, n): for -1022 <= n <= 1023 the correctly rounded product x * 2^n"""
    x, n = to_bv(a[0], 64), to_bv(a[1], 32)
    if not e.must(st, z3.And(n >= -1022, n <= 1023)): raise Unsupported('ldexp exponent range')
    p2 = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(10, 0, n + 1023), z3.BitVecVal(0, 52))
    return norm(z3.fpToIEEEBV(z3.fpMul(z3.RNE(), z3.fpBVToFP(x, z3.FPSort(11, 53)), z3.fpBVToFP(p2, z3.FPSort(11, 53)))))
def model_guard(e, st, a, f, ins):
    v = e.rd(st, a[0], 8)
    if is_conc(v) and v: return 0
    e.wr(st, a[0], 8, 1)
    return 1

class PathEnd(Exception): pass
class NeedConc(Exception):
    def __init__(s, expr): s.expr = expr
class Exc:
    """in-flight exception: typeinfo global name (None = unknown type) and object"""
    def __init__(s, ti, obj=None, tag=None): s.ti = ti; s.obj = obj; s.tag = tag
    def __repr__(s): return f"Exc({s.ti},{s.tag})"
class Outs:
    """list of ('ret', state, value) | ('exc', state, Exc) | ('frame', state)"""
    def __init__(s, l): s.l = l
CONTINUE = object(); FRAME = object(); ZERO8 = 0
BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}

# exception selector comparison: llvm.eh.typeid.for yields ('tid', name); the landing pad selector is ('ti', name) | 0 | 1
_orig_icmp = Engine.icmp
def _icmp(s, st, p, x, y, T):
    if isinstance(x, tuple) or isinstance(y, tuple):
        t = x if isinstance(x, tuple) and x[0] == 'tid' else y
        o = y if t is x else x
        if isinstance(o, tuple) and o[0] == 'ti?': raise Unsupported('unknown exception type compared')
        eq = isinstance(o, tuple) and o[1] == t[1]
        return int(eq) if p == 'eq' else int(not eq)
    return _orig_icmp(s, st, p, x, y, T)
Engine.icmp = _icmp

def _vsig(v):
    if isinstance(v, z3.ExprRef): return 'z' + v.sexpr()
    if isinstance(v, Ptr): return f'p{v.r}:{_vsig(v.i)}:{_vsig(v.o)}'
    if hasattr(v, 'reg') and hasattr(v, 'len'): return f's{v.reg}:{_vsig(v.len)}'
    if isinstance(v, (list, tuple)): return '[' + ','.join(map(_vsig, v)) + ']'
    return repr(v)
def live_ids(m, fn, header):
    """SSA values used from the loop header on that are not defined inside of the loop"""
    B = m.funcs[fn]['blocks']; seen = {header}; todo = [header]
    while todo:
        for x in m.succs(B[todo.pop()]):
            if x not in seen: seen.add(x); todo.append(x)
    used = set()
    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int): used.add(x[1])
            else:
                for y in x: walk(y)
        elif isinstance(x, dict):
            for k, y in x.items(): walk(y)
    for b in seen: walk(B[b]['i'])
    return used - {i['id'] for b in m.loops(fn)[header] for i in B[b]['i'] if 'id' in i}
def live_allocas(m, fn, header):
    """locals whose contents at the loop header may still be read (first use on some path is not a full store / construction)"""
    memo = m.__dict__.setdefault('_live_allocas', {})
    if (fn, header) in memo: return memo[fn, header]
    B = m.funcs[fn]['blocks']; al = {i['id']: m.types[i['at']]['size'] if 'at' in i else None for i in B[0]['i'] if i['op'] == 'alloca'}
    def refs(x, out):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int): out.add(x[1])
            else:
                for y in x: refs(y, out)
        elif isinstance(x, dict):
            for y in x.values(): refs(y, out)
        return out
    def effect(i, a):
        if a not in refs({k: v for k, v in i.items() if k != 'id'}, set()): return None
        if i['op'] == 'store' and i['a'][1] == ['v', a] and i['a'][0] != ['v', a] and al[a] is not None and m.types[i['vt']].get('size') == al[a]: return 'kill'
        if i['op'] in ('call', 'invoke') and isinstance(i.get('callee'), list) and i['callee'][0] == 'f' and i['a'] and i['a'][0] == ['v', a] and sum(x == ['v', a] for x in i['a']) == 1:
            f = m.funcs.get(i['callee'][1]); d = f['dem'] if f else ''
            if f and f['args'] and f['args'][0].get('sret') is not None: return 'kill'
            g = re.match(r'(?:[\w:<>, ]*::)?(\w+)(?:<.*>)?::\1\(', d)
            if g: return 'kill'
        return 'use'
    out = set()
    for a in al:
        seen = set(); todo = [header]
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b); k = None
            for i in B[b]['i']:
                k = effect(i, a)
                if k: break
            if k == 'use': out.add(a); break
            if k != 'kill': todo += m.succs(B[b])
    memo[fn, header] = out
    return out
def drop_dead(e, st, fr, header):
    live = {fr.loc[a].r for a in live_allocas(e.m, fr.fn, header) if a in fr.loc}
    for rid in fr.allocas:
        if rid not in live and rid in st.regs and st.regs[rid].cells: st.wregion(rid).cells.clear()
def state_sig(e, st, fr, header, scope, skip):
    """the part of a state that the code from a loop header on can depend on (regions of the given scope), except the cells in skip"""
    out = []
    for i in sorted(live_ids(e.m, fr.fn, header)):
        if i in fr.loc: out.append((i, _vsig(fr.loc[i])))
    for ins in e.m.funcs[fr.fn]['blocks'][header]['i']:
        if ins['op'] != 'phi': break
        v = fr.loc.get(ins['id'])
        if isinstance(v, Ptr): out.append((ins['id'], v.r, _vsig(v.o)))
    for rid in sorted(scope & set(st.regs)):
        r = st.regs[rid]
        for o, (sz, v) in sorted(r.cells.items(), key=str):
            k = skip(rid, o, sz, v)
            if not k: out.append((rid, o, sz, _vsig(v)))
            elif isinstance(v, Ptr): out.append((rid, o, sz, v.r, _vsig(v.o)))
        for k, a in sorted(r.arrs.items(), key=str):
            if not skip(rid, 'seq', k, a): out.append((rid, 'seq', k, _vsig(a)))
        if not skip(rid, 'len', 0, r.length): out.append((rid, 'len', _vsig(r.length), _vsig(r.size)))
    out.append(sorted((k, _vsig(v)) for k, v in st.ghost.items() if not k.startswith('~')))
    return repr(out)

class Cut:
    """Intermediate assertion: at the given point every path has to establish `facts`; from there on only those facts (and the
    assumptions of the contract) are known about the cells selected by `abstract`. Paths that agree on everything else continue as one."""
    def __init__(s, npc, scope, facts, abstract): s.npc = npc; s.scope = scope; s.facts = facts; s.abstract = abstract; s.seen = set()
    def apply(s, e, st, fr, header):
        scope = s.scope | set(fr.allocas)
        for n, c in s.facts(e, st, fr): e.prove(st, c, 'assertion ' + n)
        drop_dead(e, st, fr, header)
        sig = state_sig(e, st, fr, header, scope, lambda rid, o, sz, v: o != 'seq' and o != 'len' and s.abstract(st.regs[rid], o, sz, v))
        if sig in s.seen: raise PathEnd()
        s.seen.add(sig)
        for rid in sorted(scope & set(st.regs)):
            for o, (sz, v) in list(st.regs[rid].cells.items()):
                if s.abstract(st.regs[rid], o, sz, v): st.wregion(rid).cells[o] = (sz, z3.BitVec(fresh_name('cut'), 8 * sz))
        del st.pc[s.npc:]
        for n, c in s.facts(e, st, fr): st.assume(c)

class LoopInv:
    """Loop cut by candidate invariants (Houdini): `cands(eng, st, fr, header, entry)` returns a list of (name, formula)
    for the state at the loop header; candidates that are not established or not preserved are dropped, the remaining
    conjunction is inductive by construction (proved on every run) and assumed for the arbitrary iteration."""
    def __init__(s, cands, name='loop', after_havoc=None, required=()):
        s.cands = cands; s.name = name; s.after_havoc = after_havoc; s.required = set(required)
    merge = None; cut = None     # merge = (number of assumptions of the contract, scope): entries that agree on what the loop leaves alone continue as one
    def enter_merged(s, e, st, fr, header, base):
        if e.quiet: return s.enter(e, st, fr, header, base)
        drop_dead(e, st, fr, header)
        npc, scope = s.merge; scope = scope | set(fr.allocas)
        if not hasattr(s, 'memo'): s.memo = {}; s.nmerged = 0
        key = (fr.fn, header, len(st.frames))
        for live, entry, mod, sig in s.memo.get(key, []):
            sg = s.sig(e, st, fr, header, scope, mod)
            if sg != sig:
                if os.environ.get('VC_DEBUG'):
                    i = next((i for i in range(min(len(sg), len(sig))) if sg[i] != sig[i]), -1); print('NOMERGE', sg[max(0, i - 200):i + 150], '///', sig[max(0, i - 30):i + 150])
                continue
            ok = True
            for n, c in s.cands(e, st, fr, header, st.snapshot()):
                if n in live and not e.must(st, c): ok = False; break
            if ok: s.nmerged += 1; raise PathEnd()
        s.lastmod = None
        r = s.enter(e, st, fr, header, base)
        live, entry = fr.loopctx[header][2]
        s.memo.setdefault(key, []).append((set(live), entry, s.lastmod, s.sig(e, entry, entry.frames[-1], header, scope, s.lastmod)))
        del st.pc[npc:]; cs = s.cands(e, st, fr, header, st.snapshot()); s.assume_live(st, cs, live)
        return r
    def sig(s, e, st, fr, header, scope, mod):
        ptr = lambda st, rid, o, v: isinstance(v, Ptr) and not (v.r and v.r in st.regs and st.regs[v.r].stride)
        covered = lambda rid, o, sz: (rid, o, sz) in mod or (not isinstance(o, str) and any(x[0] == rid and isinstance(x[1], int) and isinstance(o, int) and x[1] <= o and o + sz <= x[1] + x[2] for x in mod if x[1] != 'seq'))
        return state_sig(e, st, fr, header, scope, lambda rid, o, sz, v: covered(rid, o, sz) and not ptr(st, rid, o, v))
    def phis(s, e, fr, header):
        out = []
        for ins in e.m.funcs[fr.fn]['blocks'][header]['i']:
            if ins['op'] != 'phi': break
            out.append(ins)
        return out
    def havoc(s, e, st, fr, header, mod, snap):
        n0 = fresh_mark(); kept = s.havoc_(e, st, fr, header, mod, snap); s.fresh = (n0, fresh_mark()); return kept
    def loosen(s, e, st, cs, fresh, live):
        """variables of an arbitrary iteration that no candidate (not even a dropped one) speaks about: what depends on them is not decided by the contract"""
        known = set()
        for n, c in cs:
            if not n.startswith('?') or n in live: known |= symbols(c)     # '?': guesses about variables that the code may use differently
        a, b = fresh
        st.ghost['~loose'] = st.ghost.get('~loose', ()) + ((a, b, frozenset(known)),)
    def havoc_(s, e, st, fr, header, mod, snap):
        kept = []
        for ins in s.phis(e, fr, header):
            T = e.T[ins['t']]; old = fr.loc[ins['id']]
            if T['k'] == 'ptr':
                if isinstance(old, Ptr) and old.r and st.regs[old.r].stride:
                    # pointer iterating over a sequence region: arbitrary index, same field
                    fr.loc[ins['id']] = Ptr(old.r, z3.BitVec(fresh_name('it'), 64), old.o)
                elif ('phiptr', ins['id'], 0) in mod: raise Unsupported('loop-carried pointer')
            elif T['k'] == 'int': fr.loc[ins['id']] = z3.Bool(fresh_name('phi')) if T['w'] == 1 else z3.BitVec(fresh_name('phi'), T['w'])
            elif T['k'] == 'fp': fr.loc[ins['id']] = z3.BitVec(fresh_name('phi'), T['w'])
            else: raise Unsupported('phi of ' + T['k'])
        for w in sorted((x for x in mod if x[0] != 'phiptr'), key=str):
            rid, k, n = w
            if rid not in st.regs: continue
            r = st.wregion(rid)
            if k == 'seq':
                o = n
                a = r.arrs.get(o)
                if a is not None: r.arrs[o] = z3.Const(fresh_name(f'{r.name}.h'), a.sort())
            elif k == 'obj': r.meta = n(e, st, r)
            else:
                for o in [o for o, (sz, v) in r.cells.items() if o < k + n and o + sz > k]:
                    sz, v = r.cells[o]
                    if isinstance(v, Ptr):
                        if v.r and v.r in st.regs and st.regs[v.r].stride: r.cells[o] = (sz, Ptr(v.r, z3.BitVec(fresh_name('it'), 64), v.o))
                        else: kept.append((rid, o, v))   # must not change (checked on every way back)
                    elif hasattr(v, 'havoc'): r.cells[o] = (sz, v.havoc(e, st))
                    elif isinstance(v, (FnPtr, Tok)): raise Unsupported('loop modifies function pointer')
                    elif isinstance(v, z3.ExprRef) and not z3.is_bv(v) and not z3.is_bool(v): r.cells[o] = (sz, z3.Const(fresh_name('h'), v.sort()))
                    else: r.cells[o] = (sz, z3.BitVec(fresh_name(f'{r.name}+{o}'), 8 * sz))
        for g, v in list(st.ghost.items()):
            if ('ghost', g) in mod or True:
                if hasattr(v, 'havoc'): st.ghost[g] = v.havoc(e, st)
                elif isinstance(v, z3.ExprRef) and g.startswith('~'): st.ghost[g] = z3.Const(fresh_name(g), v.sort())
        if s.after_havoc: s.after_havoc(e, st, fr, header)
        return kept
    def enter(s, e, st, fr, header, base):
        entry = st.snapshot(); s.entry = entry
        depth = len(st.frames)
        mod = set(); dropped = []
        for rnd in range(20):
            # Houdini for the current modification set; restarted whenever an iteration writes something outside of it
            t0 = st.snapshot(); s.havoc(e, t0, t0.frames[-1], header, mod, entry)
            names = [n for n, c in s.cands(e, t0, t0.frames[-1], header, entry)]
            cs0 = s.cands(e, entry, entry.frames[-1], header, entry)
            live = [n for n, c in cs0 if n in names and e.must(entry, c)]
            dropped = [n for n in names if n not in live]
            if os.environ.get('VC_DEBUG'): print('ENTRY', rnd, 'not', dropped)
            grown = False
            while True:
                t = st.snapshot(); t.writes = set(); fr2 = t.frames[-1]
                kept = s.havoc(e, t, fr2, header, mod, entry)
                cs = s.cands(e, t, fr2, header, entry)
                s.assume_live(t, cs, live)
                backs = []
                fr2.loopctx[header] = ('trial', lambda x: backs.append(x))
                e.quiet += 1
                try: e.explore(t, depth - 1, None)
                finally: e.quiet -= 1
                new = {w for x in backs for w in x.writes if w[0] in entry.regs}
                for x in backs:
                    for ins in s.phis(e, fr2, header):
                        v, o = x.frames[-1].loc[ins['id']], entry.frames[-1].loc[ins['id']]
                        if isinstance(o, Ptr) and not (o.r and entry.regs[o.r].stride) and not s.sameptr(v, o): new.add(('phiptr', ins['id'], 0))
                        if isinstance(o, Ptr) and o.r and entry.regs[o.r].stride and not (isinstance(v, Ptr) and v.r == o.r and v.o == o.o): raise Unsupported('loop-carried pointer leaves its sequence')
                    for rid, o, v in kept:
                        c = x.regs[rid].cells.get(o)
                        if c is None or not s.sameptr(c[1], v): raise Unsupported(f'loop modifies pointer cell {x.regs[rid].name}+{o}')
                if not new <= mod: mod |= new; grown = True; break
                bad = set()
                for x in backs:
                    for n, c in s.cands(e, x, x.frames[-1], header, entry):
                        if n in live and n not in bad and not e.must(x, c):
                            bad.add(n)
                            if os.environ.get('VC_CEX') and re.search(os.environ['VC_CEX'], n): e.dump_cex(x, c, n)
                if os.environ.get('VC_DEBUG'): print('ROUND', rnd, 'bad', bad)
                if not bad: break
                dropped += sorted(bad)
                live = [n for n in live if n not in bad]
            if not grown: break
        else: raise Undecided('modification set')
        if not e.quiet:
            for n in live: e.obls.append(Obligation(f'invariant:{s.name}:{n}', 'proved', where=e.where(st)))
            for n in s.required & set(dropped):
                e.obls.append(Obligation(f'invariant:{s.name}:{n}', 'dropped', where=e.where(st)))
        if os.environ.get('VC_DEBUG'): print('LOOP', e.where(st), 'live', live, 'dropped', dropped, 'mod', [(entry.regs[w[0]].name if w[0] in entry.regs else w[0],) + tuple(w[1:]) for w in mod])
        # continue from an arbitrary iteration
        s.lastmod = frozenset(mod)
        s.havoc(e, st, fr, header, mod, entry)
        fresh = s.fresh; cs = s.cands(e, st, fr, header, entry)
        s.assume_live(st, cs, live); s.loosen(e, st, cs, fresh, live)
        fr.loopctx[header] = ('inv', s, (live, entry))
        if not e.feasible(st): raise Undecided('loop invariant makes the loop unreachable')
        return None
    def sameptr(s, v, o): return isinstance(v, Ptr) and (v.r, v.o) == (o.r, o.o) and (v.i is o.i or (is_conc(v.i) and is_conc(o.i) and v.i == o.i) or (isinstance(v.i, z3.ExprRef) and isinstance(o.i, z3.ExprRef) and v.i.eq(o.i)))
    def assume_live(s, t, cs, live):
        for n, c in cs:
            if live is not None and n in live: t.assume(c)
    def back(s, e, st, fr, header, data):
        pass  # preservation of the surviving candidates was proved in enter()
