"""Contracts of the struct value operations (StructDescriptor), for every number of properties, every type of property
(arbitrary implementation of the Descriptor interface) and every contents.

A property slot is abstract: val[j] (identity of the stored value), con[j] (a constructed object lives in the slot)."""
import z3
from .engine import *
from .contract import *
from . import stdmodels as sm

B32 = bvw(32)
SET = z3.Array('set', BV64, B32); OFF = z3.Array('offset', BV64, BV64); TYPE = z3.Array('vtype', BV64, bvw(8)); DYN = z3.Array('dyn', BV64, z3.BoolSort())
N = z3.BitVec('n_props', 64); U = z3.BitVec('undeclared_bits', 32)
DEF = z3.Function('default_value', BV64, BV64)
EQ = z3.Function('value_equal', BV64, BV64, BV64, z3.BoolSort()); LT = z3.Function('value_less', BV64, BV64, BV64, z3.BoolSort())
MERGE = z3.Function('value_merge', BV64, BV64, BV64, BV64)
TSTRUCT = None
def bit(x, j): return (x & z3.Select(SET, j)) != 0
def sub(j, P): return (P & z3.Select(SET, j)) == z3.Select(SET, j)
_q = itertools.count()
def forall(f, *pats):
    j = z3.BitVec(f'j!{next(_q)}', 64)
    return z3.ForAll([j], z3.Implies(z3.And(z3.ULT(j, N), MARK(j)), f(j)), patterns=[z3.Select(SET, j), MARK(j)])
MARK = z3.Function('index', BV64, z3.BoolSort())   # trigger; true everywhere (axiom)
def axioms():
    j, i = z3.BitVec('j!ax', 64), z3.BitVec('i!ax', 64); s = lambda k: z3.Select(SET, k)
    return [z3.ULE(N, 32), z3.ForAll([j], MARK(j), patterns=[s(j)]),
            z3.ForAll([j], z3.Implies(z3.ULT(j, N), z3.And(s(j) != 0, s(j) & (s(j) - 1) == 0, s(j) & U == 0)), patterns=[s(j)]),
            z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, N), z3.ULT(j, N), i != j), s(i) & s(j) == 0), patterns=[z3.MultiPattern(s(i), s(j))])]

class Inst:
    """a struct instance: object, property area (valid mask), property slots"""
    def __init__(s, e, st, tag, desc, raw=False):
        s.tag = tag
        s.obj = st.alloc(f'struct {tag}', size=None, origin='pre'); s.area = st.alloc(f'area {tag}', size=None, origin='pre')
        s.slots = st.alloc(f'slots {tag}', stride=1 << 20, length=None, origin='pre').r
        s.valid0 = z3.BitVec(f'valid_{tag}', 32); s.val0 = z3.Array(f'val_{tag}', BV64, BV64); s.con0 = z3.Array(f'con_{tag}', BV64, z3.BoolSort())
        r = st.wregion(s.slots); r.arrs['val'] = s.val0; r.arrs['con'] = s.con0
        st.wregion(s.area.r).meta = ('area', s.slots)
        e.inst[s.obj.r] = s
        if not raw:
            st.wregion(s.obj.r).cells[0] = (8, desc); st.wregion(s.area.r).cells[0] = (4, s.valid0)
            st.assume(inv(s.valid0, s.con0))
        else: st.assume(z3.BoolVal(True)); st.assume(forall(lambda j: z3.Not(z3.And(z3.Select(DYN, j), z3.Select(s.con0, j)))))
    def valid(s, e, st): return to_bv(e.rd(st, s.area, 32), 32)
    def val(s, st): return st.regs[s.slots].arrs['val']
    def con(s, st): return st.regs[s.slots].arrs['con']
def inv(valid, con):
    """lifecycle invariant: a property is valid exactly if an object lives in its slot (objects without dynamic memory need not be destroyed)"""
    return forall(lambda j: z3.And(z3.Implies(bit(valid, j), z3.Select(con, j)), z3.Implies(z3.And(z3.Select(con, j), z3.Select(DYN, j)), bit(valid, j))))

def slot(e, st, p, what):
    if not (isinstance(p, Ptr) and p.r in st.regs and 'val' in st.regs[p.r].arrs): raise Unsupported(f'{what}: not a property slot ({p})')
    return st.regs[p.r], to_bv(p.i, 64)
class VD:
    """interface contract of value descriptors (Descriptor<>): what every implementation is assumed to do"""
    def __init__(s, name, fn): s.name = name; s.fn = fn
    def apply(s, e, st, args): return s.fn(e, st, args)
def wr(e, st, rid, key, i, v):
    r = st.wregion(rid); r.arrs[key] = z3.Store(r.arrs[key], i, v); st.writes.add((rid, 'seq', key))
def vd_handlers():
    def own(e, st, a, p):
        d = a[0]; r, i = slot(e, st, p, 'value operation')
        e.prove(st, z3.And(z3.ULT(i, N), to_bv(d.i, 64) == i), 'the value descriptor of this very property is used')
        return r, i
    def alive(e, st, r, i, what): e.prove(st, z3.Select(r.arrs['con'], i), f'lifecycle: {what} of a constructed value')
    def construct(kind):
        def go(e, st, a):
            r, i = own(e, st, a, a[1])
            e.prove(st, z3.Or(z3.Not(z3.Select(r.arrs['con'], i)), z3.Not(z3.Select(DYN, i))), 'lifecycle: no construction over a live value')
            v = DEF(i)
            if kind:
                q, k = own(e, st, a, a[2]); alive(e, st, q, k, 'copy/move'); v = z3.Select(q.arrs['val'], k)
            wr(e, st, a[1].r, 'con', i, z3.BoolVal(True)); wr(e, st, a[1].r, 'val', i, v)
            if kind == 'move': wr(e, st, a[2].r, 'val', k, z3.BitVec(fresh_name('moved'), 64))
            return a[1]
        return go
    def destruct(e, st, a):
        r, i = own(e, st, a, a[1]); alive(e, st, r, i, 'destruction'); wr(e, st, a[1].r, 'con', i, z3.BoolVal(False)); return None
    def assign(kind):
        def go(e, st, a):
            r, i = own(e, st, a, a[1]); alive(e, st, r, i, 'assignment'); v = DEF(i)
            if kind:
                q, k = own(e, st, a, a[2]); alive(e, st, q, k, 'reading'); v = z3.Select(q.arrs['val'], k)
            if kind == 'move': wr(e, st, a[2].r, 'val', k, z3.BitVec(fresh_name('moved'), 64))
            wr(e, st, a[1].r, 'val', i, v); return a[1]
        return go
    def swap(e, st, a):
        r, i = own(e, st, a, a[1]); q, k = own(e, st, a, a[2]); alive(e, st, r, i, 'swap'); alive(e, st, q, k, 'swap')
        x, y = z3.Select(r.arrs['val'], i), z3.Select(q.arrs['val'], k)
        wr(e, st, a[1].r, 'val', i, y); wr(e, st, a[2].r, 'val', k, x); return None
    def rel(R):
        def go(e, st, a):
            r, i = own(e, st, a, a[1]); q, k = own(e, st, a, a[2]); alive(e, st, r, i, 'comparison'); alive(e, st, q, k, 'comparison')
            return R(i, z3.Select(r.arrs['val'], i), z3.Select(q.arrs['val'], k))
        return go
    T = 'N4dots4type8TypelessE'
    P = '_ZNK7VhValue'
    return {P + '9constructER' + T: construct(None), P + '9constructER' + T + 'RKS2_': construct('copy'), P + '9constructER' + T + 'OS2_': construct('move'),
            P + '16constructInPlaceER' + T: construct(None), P + '16constructInPlaceER' + T + 'RKS2_': construct('copy'), P + '16constructInPlaceER' + T + 'OS2_': construct('move'),
            P + '8destructER' + T: destruct, P + '6assignER' + T: assign(None), P + '6assignER' + T + 'RKS2_': assign('copy'), P + '6assignER' + T + 'OS2_': assign('move'),
            P + '4swapER' + T + 'S3_': swap, P + '5equalERK' + T + 'S4_': rel(EQ), P + '4lessERK' + T + 'S4_': rel(LT)}

def world(e, st):
    """descriptor with N properties"""
    m = e.m; e.inst = {}
    D = st.alloc('descriptor', size=m.clssize('dots::type::StructDescriptor'), lazy=True, origin='pre')
    psz = m.clssize('dots::type::PropertyDescriptor')
    q = sm.new_seq(e, st, psz, N, 'properties'); st.regs[q.reg].origin = 'pre'
    vds = st.alloc('value descriptors', stride=1 << 16, length=N, origin='pre')
    F = lambda n: m.field('dots::type::PropertyDescriptor', n)
    def hook(e, st, r, off, T):
        i, o = off
        if T['k'] == 'ptr' and o == F('m_descriptor'): return Ptr(vds.r, i, 0)
        if T['k'] == 'ptr': return UNDEF
    def vhook(e, st, r, off, T):
        i, o = off
        if T['k'] == 'ptr' and o == 0: return Ptr(e.gptr(st, '_ZTV7VhValue').r, 0, 16)
    r = st.wregion(q.reg); r.hook = hook; r.arrs[F('m_set')] = SET; r.arrs[F('m_offset')] = OFF
    v = st.wregion(vds.r); v.hook = vhook; v.arrs[m.field('dots::type::Descriptor<dots::type::Typeless>', 'm_type')] = TYPE
    e.pds = q.reg; e.vds = vds.r
    props = z3.BitVec('props', 32); keys = z3.BitVec('keys', 32); dynp = z3.BitVec('dynamic', 32); e.props = dict(props=props, keys=keys, dyn=dynp)
    w = st.wregion(D.r); fd = lambda n: m.field('dots::type::StructDescriptor', n)
    sm.put_seq(e, st, e.padd(st, D, fd('m_propertyDescriptors')), q, 24, init=True)
    w = st.wregion(D.r)
    w.cells[0] = (8, Ptr(e.gptr(st, '_ZTV8VhStruct').r, 0, 16)); w = st.wregion(D.r)
    w.cells[fd('m_properties')] = (4, props); w.cells[fd('m_keyProperties')] = (4, keys); w.cells[fd('m_dynamicMemoryProperties')] = (4, dynp)
    for a in axioms(): st.assume(a)
    st.assume(forall(lambda j: z3.And(bit(props, j), bit(dynp, j) == z3.Select(DYN, j))))
    st.assume(dynp & U == 0)
    e.desc = D
    return D

def install(e):
    e.ematch = True
    sm.install(e, vector_types=('dots::type::PropertyDescriptor', 'std::reference_wrapper<dots::type::PropertyDescriptor const>'))
    for k, f in vd_handlers().items():
        if k in e.m.funcs: e.contracts[k] = VD(k, f)
    def area(e, st, a):
        p = a[1]
        if p.r not in e.inst: raise Unsupported('property area of unknown instance')
        return e.inst[p.r].area
    for k in e.m.funcs:
        if k.startswith('_ZNK8VhStruct12propertyArea'): e.contracts[k] = VD(k, area)
    def merge(e, st, a):
        r, i = slot(e, st, a[0], '_merge'); q, k = slot(e, st, a[1], '_merge')
        e.prove(st, z3.And(i == k, z3.Select(r.arrs['con'], i), z3.Select(q.arrs['con'], k)), 'lifecycle: merge of constructed values of the same property')
        e.prove(st, z3.Select(TYPE, i) == e.tstruct, 'nested merge only for struct properties')
        e.prove(st, to_bv(a[2], 32) == 0xffffffff, 'nested merge includes all properties')
        wr(e, st, a[0].r, 'val', i, MERGE(i, z3.Select(r.arrs['val'], i), z3.Select(q.arrs['val'], k))); return a[0]
    mf = e.m.find(r'^dots::type::Struct::_merge\(')
    for k in mf: e.contracts[k] = VD(k, merge)
    old = e.padd_sym
    def padd_sym(st, p, idx, scale):
        if isinstance(p, Ptr) and p.r in st.regs and isinstance(st.regs[p.r].meta, tuple) and st.regs[p.r].meta[0] == 'area' and not is_conc(idx):
            if scale == 1 and p.o == 0 and z3.is_select(idx) and idx.arg(0).eq(OFF):
                j = idx.arg(1); e.prove(st, z3.ULT(j, N), 'memory-safety: property of this descriptor'); return Ptr(st.regs[p.r].meta[1], norm(j), 0)
            raise Unsupported('property area arithmetic ' + str(idx)[:80])
        return old(st, p, idx, scale)
    e.padd_sym = padd_sym
    for c in iterator_contracts(e.m): e.contracts[c.fn] = c
    e.loop_specs.append((struct_loop_filter, STRUCT_LOOP))

# ---- property iteration -----------------------------------------------------------------------------
class IterStep:
    """PropertyIterator::operator++: moves to the next property of the set (or the end), in descriptor order, and designates it"""
    def __init__(s, m, fn, cls):
        s.fn = fn; s.cls = cls; s.name = 'PropertyIterator::operator++' + ('' if 'false, false' in cls else ' const' if 'false, true' in cls else cls); s.m = m
        s.emplace = m.one('^' + re.escape(cls) + r'::emplaceProxy\(\)$')
        f = lambda n: m.field(cls, n)
        s.o_it, s.o_props, s.o_area, s.o_descs = f('m_descriptorIt'), f('m_properties'), f('m_area'), f('m_descriptors')
    def at(s, e, st, it): return e.rdp(st, e.padd(st, it, s.o_it))
    def post(s, e, st, it, pos, start_incl):
        """outcomes: end reached / stands on the first included property at or after pos"""
        P = to_bv(e.rd(st, e.padd(st, it, s.o_props), 32), 32); outs = []
        gt = (lambda j, x: z3.UGE(j, x)) if start_incl else (lambda j, x: z3.UGT(j, x))
        for end in (True, False):
            t = st.fork(); x = N if end else z3.BitVec(fresh_name('pos'), 64)
            t.assume(MARK(x)); t.assume(MARK(pos))
            if not end: t.assume(gt(x, pos)); t.assume(z3.ULT(x, N)); t.assume(sub(x, P))
            t.assume(forall(lambda j: z3.Implies(z3.And(gt(j, pos), z3.ULT(j, x)), z3.Not(sub(j, P)))))
            e.wrp(t, e.padd(t, it, s.o_it), Ptr(e.pds, norm(x), 0))
            if not e.feasible(t): continue
            if not end: inplace(e, t, s.emplace, [it])
            outs.append(('ret', t, it))
        return Outs(outs)
    def apply(s, e, st, args):
        it = args[0]; p = s.at(e, st, it)
        e.prove(st, z3.ULE(to_bv(p.i, 64), N), f'call of {s.name}: requires a position of the descriptor list')
        if e.must(st, to_bv(p.i, 64) == N): return it
        e.prove(st, z3.ULT(to_bv(p.i, 64), N), f'call of {s.name}: requires not at the end')
        return s.post(e, st, it, to_bv(p.i, 64), False)
def inplace(e, st, fn, args):
    """executes fn on st in place (single outcome)"""
    fr, dn = st.frames, st.done
    st.frames = []; st.done = None
    fin = e.run(st, fn, args)
    if len(fin) != 1 or fin[0].done[0] != 'ret': raise Unsupported('in place execution of ' + fn)
    x = fin[0]; v = x.done[1]
    if x is not st:
        for k in State.__slots__: setattr(st, k, getattr(x, k))
    st.frames = fr; st.done = dn
    return v
def iterator_contracts(m):
    out = []
    for k in m.find(r'^dots::type::PropertyIterator<(false|true), (false|true)>::operator\+\+\(\)$'):
        cls = m.funcs[k]['dem'].split('::operator')[0]
        if 'true' in cls.split('<')[1].split(',')[0]: continue
        out.append(IterStep(m, k, cls))
    return out
def pds_cells(e, st, fr):
    """all cells of live stack objects that hold a pointer into the descriptor list"""
    out = []
    for f in st.frames:
        for rid in f.allocas:
            r = st.regs.get(rid)
            if r is None: continue
            for o, (sz, v) in sorted(r.cells.items()):
                if isinstance(v, Ptr) and v.r == posreg(e): out.append((rid, o, v))
    return out
def posreg(e): return e.pds if getattr(e, 'posreg', None) is None else e.posreg     # the list the loop walks through (default: the property list)
def poslen(e): return N if getattr(e, 'poslen', None) is None else e.poslen
def verify_step(c):
    def go(e):
        e.cur = c.name; st = State(e); D = world(e, st); A = Inst(e, st, 'A', D)
        it = st.alloc('iterator', size=e.m.clssize(c.cls), origin='pre')
        pos = z3.BitVec('pos', 64); P = z3.BitVec('P', 32); st.assume(z3.ULE(pos, N))
        w = st.wregion(it.r)
        w.cells[c.o_it] = (8, Ptr(e.pds, pos, 0)); w.cells[c.o_props] = (4, P); w.cells[c.o_area] = (8, A.area)
        w.cells[c.o_descs] = (8, e.padd(st, D, e.m.field('dots::type::StructDescriptor', 'm_propertyDescriptors')))
        w.lazy = True
        del e.contracts[c.fn]
        def cands(e, x, fr, h, entry):
            p = to_bv(c.at(e, x, it).i, 64)
            return [('position does not go back', z3.UGE(p, pos)), ('position inside the list', z3.ULT(p, N)), ('position at most the end', z3.ULE(p, N)), ('nothing included was skipped', forall(lambda j: z3.Implies(z3.And(z3.UGT(j, pos), z3.ULE(j, p)), z3.Not(sub(j, P))))), ('not moved while at the end', z3.Implies(pos == N, p == N))]
        e.loop_specs.insert(0, (lambda e, x, fr, h: fr.fn == c.fn, LoopInv(cands, c.name)))
        e.cover(st, c.name + ': requires satisfiable')
        st.writes = set(); fin = e.run(st, c.fn, [it]); ends = set()
        for x in fin:
            if x.done[0] != 'ret': e.prove(x, False, c.name + ': does not throw'); continue
            p = to_bv(c.at(e, x, it).i, 64)
            e.prove(x, z3.If(pos == N, p == N, z3.And(z3.UGT(p, pos), z3.ULE(p, N))), c.name + ': ensures the position advances')
            e.prove(x, forall(lambda j: z3.Implies(z3.And(z3.UGT(j, pos), z3.ULT(j, p)), z3.Not(sub(j, P)))), c.name + ': ensures no included property is skipped')
            e.prove(x, z3.Implies(p != N, sub(p, P)), c.name + ': ensures the new property is included')
            e.prove(x, to_bv(e.rd(x, e.padd(x, it, c.o_props), 32), 32) == P, c.name + ': ensures the property set is unchanged')
            if e.feasible(x, p != N):
                y = x.fork(); y.assume(p != N); y.frames = []; y.done = None
                deref = e.m.one('^' + re.escape(c.cls) + r'::operator\*\(\)$')
                q, z = view(e, y, deref, [it])
                d, z = view(e, z, e.m.one(r'^dots::type::ProxyProperty<dots::type::Typeless>::derivedDescriptor\(\) const$'), [q])
                e.prove(y, isinstance(d, Ptr) and d.r == e.pds and to_bv(d.i, 64) == p, c.name + ': ensures it designates the property at its position')
                a = e.rdp(z, e.padd(z, q, e.m.field('dots::type::ProxyProperty<dots::type::Typeless>', 'm_area')))
                e.prove(y, isinstance(a, Ptr) and a.r == A.area.r and a.o == 0, c.name + ': ensures it designates the instance')
            bad = [w for w in x.writes if w[0] != it.r and w[0] in st.regs and st.regs[w[0]].origin == 'pre']
            e.obls.append(Obligation(c.name + ': frame (only the iterator changes)', 'proved' if not bad else 'refuted', where=str(bad[:2]), backend='write-set'))
        if not fin: e.obls.append(Obligation('cover:' + c.name, 'vacuous'))
    return go

# ---- loops over property ranges ------------------------------------------------------------------------
def struct_loop_filter(e, st, fr, h):
    return getattr(e, 'opinv', None) is not None and e.m.funcs[fr.fn]['dem'].startswith('dots::type::StructDescriptor::')
class StructLoop(LoopInv):
    """candidates: relations between the loop's position variables (pointers into the descriptor list), small cells, and the
    operation's pointwise invariant at every position variable"""
    def __init__(s): super().__init__(None, 'property loop'); s.cands = s.candidates; s.active = {}
    def candidates(s, e, st, fr, h, entry):
        out = []; L = poslen(e); act = s.active.setdefault((id(entry), h), dict(pos=[], small=[], keep=entry))
        base = {('cell', r, o): v for r, o, v in pds_cells(e, entry, fr)}
        now = {('cell', r, o): v for r, o, v in pds_cells(e, st, fr)}
        for i in s.phis(e, fr, h):
            v = fr.loc.get(i['id'])
            if isinstance(v, Ptr) and v.r == posreg(e) or e.T[i['t']]['k'] == 'int' and e.T[i['t']]['w'] in (32, 64): now[('phi', i['id'], 0)] = v; base[('phi', i['id'], 0)] = entry.frames[-1].loc[i['id']]
        def ix(d, k):
            v = d[k]
            if isinstance(v, Ptr): return to_bv(v.i, 64)
            if isinstance(v, z3.BitVecRef) and v.size() < 64: return z3.ZeroExt(64 - v.size(), v)
            return to_bv(v, 64)
        for k in now:
            if k in base and k not in act['pos'] and not ix(now, k).eq(ix(base, k)): act['pos'].append(k)
        pos = [k for k in act['pos'] if k in now]
        nm = lambda k: f'{st.regs[k[1]].name}+{k[2]}' if k[0] == 'cell' else f'phi{k[1]}' if isinstance(now[k], Ptr) else f'?phi{k[1]}'
        for n, k in enumerate(pos):
            x = ix(now, k)
            out.append((f'{nm(k)} inside', z3.ULT(x, L))); out.append((f'{nm(k)} at most end', z3.ULE(x, L)))
            for l in pos[:n]:
                y = ix(now, l)
                out.append((f'{nm(k)} equals {nm(l)}', x == y)); out.append((f'{nm(k)} equals {nm(l)} before the end', z3.Implies(z3.And(z3.ULT(x, L), z3.ULT(y, L)), x == y)))
        for f in st.frames:
            for rid in f.allocas:
                r, r0 = st.regs.get(rid), entry.regs.get(rid)
                if r is None or r0 is None: continue
                for o, (sz, v) in sorted(r.cells.items()):
                    if sz not in (1, 4) or o not in r0.cells or isinstance(v, (Undef, Ptr)) or isinstance(r0.cells[o][1], (Undef, Ptr)): continue
                    if z3.is_bv(v) and not (isinstance(r0.cells[o][1], z3.ExprRef) and r0.cells[o][1].eq(v)) and (rid, o) not in act['small']: act['small'].append((rid, o))
        seen = []
        for f in entry.frames:
            for rid in f.allocas:
                for o, (sz, v) in sorted(entry.regs[rid].cells.items() if rid in entry.regs else []):
                    if sz != 4 or isinstance(v, (Undef, Ptr)) or posreg(e) != e.pds: continue
                    v = to_bv(v, 32)
                    if any(v.eq(w) for w in seen): continue
                    seen.append(v)
                    for k in pos[:1]: out.append((f'{nm(k)} designates a property of the set {entry.regs[rid].name}+{o}', z3.Implies(z3.ULT(ix(now, k), L), z3.And(MARK(ix(now, k)), sub(ix(now, k), v)))))
        for rid, o in act['small']:
            r, r0 = st.regs.get(rid), entry.regs[rid]
            if r is None or o not in r.cells: continue
            sz, v = r.cells[o]; v0 = r0.cells[o][1]
            if isinstance(v, (Undef, Ptr)): continue
            v, v0 = to_bv(v, 8 * sz), to_bv(v0, 8 * sz)
            out.append((f'{r.name}+{o} keeps its value', v == v0))
            if sz == 1:
                for k in pos[:1]: out.append((f'{r.name}+{o} set before the end', z3.Implies(z3.ULT(ix(now, k), L), v == 1)))
            elif e.opres is not None:
                for k in pos[:1]:
                    p = ix(now, k)
                    out.append((f'{r.name}+{o} accumulates the result', z3.And(v & U == v0 & U, forall(lambda j: bit(v, j) == z3.If(z3.ULT(j, p), e.opres(j), bit(v0, j))))))
        for k in pos[:1]:
            for n, c in e.opinv(e, st, ix(now, k)): out.append((f'{n} [{nm(k)}]', c))
        return [('?' + n if '?' in n else n, c) for n, c in out]
STRUCT_LOOP = StructLoop()

class Op(Contract):
    """one struct operation. final(j) -> dict of expected final values of slot j (as functions of the initial ones)"""
    def __init__(s, wrapper, name, args='DABi', raw=False, alias=False, A=None, B=None, post=None, inv=None, res=None, retw=None, pre=None):
        super().__init__(wrapper); s.name = name + (' (aliased operands)' if alias else ''); s.argspec = args; s.raw = raw; s.alias = alias
        s.fA, s.fB, s.post, s.inv_, s.res, s.retw, s.pre = A, B, post, inv, res, retw, pre
    def setup(s, e, st):
        install(e); e.tstruct = 18
        s.D = world(e, st)
        s.A = Inst(e, st, 'A', s.D, raw=s.raw)
        s.B = s.A if s.alias else (Inst(e, st, 'B', s.D) if 'B' in s.argspec else None)
        s.incl = z3.BitVec('included', 32)
        w = s
        class V: pass
        v = V(); v.e = e
        v.a = lambda j: bit(s.A.valid0, j) if not s.raw else z3.BoolVal(False); v.b = lambda j: bit(s.B.valid0, j)
        v.va = lambda j: z3.Select(s.A.val0, j); v.vb = lambda j: z3.Select(s.B.val0, j)
        v.i = (lambda j: bit(s.incl, j)) if 'i' in s.argspec else (lambda j: z3.BoolVal(True))
        v.keys = lambda j: bit(e.props['keys'], j); v.isstruct = lambda j: z3.Select(TYPE, j) == e.tstruct
        s.v = v
        for c in (s.pre(v) if s.pre else []): st.assume(c)
        e.opinv = s.opinv; e.opres = (lambda j: s.res(v, j)) if s.res else None
        return [{'D': s.D, 'A': s.A.obj, 'B': s.B.obj if s.B else None, 'i': s.incl}[c] for c in s.argspec]
    def slotstate(s, e, st, I, f, j, keepval=True):
        """slot j of instance I is as specified by f: (valid', value' or None = unspecified)"""
        vd, vl = f(s.v, j)
        c = [bit(I.valid(e, st), j) == vd]
        if vl is not None: c.append(z3.Implies(vd, z3.Select(I.val(st), j) == vl))
        return z3.And(*c)
    def life(s, e, st, I): return lambda j: z3.And(z3.Implies(bit(I.valid(e, st), j), z3.Select(I.con(st), j)), z3.Implies(z3.And(z3.Select(I.con(st), j), z3.Select(DYN, j)), bit(I.valid(e, st), j)))
    def insts(s):
        out = [(s.A, s.fA)]
        if s.B is not None and not s.alias: out.append((s.B, s.fB))
        return out
    def opinv(s, e, st, p):
        out = []; stt = s.entry
        for I, f in s.insts():
            init = (lambda v, j: (z3.BoolVal(False), None)) if (s.raw and I is s.A) else ((lambda v, j: (v.a(j), v.va(j))) if I is s.A else (lambda v, j: (v.b(j), v.vb(j))))
            f = f or init
            try: V1 = I.valid(e, st)
            except Exception: continue
            out.append((f'{I.tag}: processed part final, rest initial', forall(lambda j: z3.If(z3.ULT(j, p), s.slotstate(e, st, I, f, j), s.slotstate(e, st, I, init, j)))))
            out.append((f'{I.tag}: undeclared bits', V1 & U == (0 if s.raw and I is s.A else I.valid0 & U)))
            out.append((f'{I.tag}: lifecycle', forall(s.life(e, st, I))))
            out.append((f'{I.tag}: valid mask unchanged', V1 == I.valid0))
            if getattr(s, 'clears', False):
                out.append(('constructed exactly the unprocessed', forall(lambda j: z3.Select(I.con(st), j) == z3.If(z3.And(z3.ULT(j, p), z3.Select(DYN, j), bit(I.valid0, j)), False, z3.Select(I.con0, j)))))
        if s.inv_: out += s.inv_(s.v, p)
        return out
    def ensures(s, e, st0, st1, args, ret):
        out = []
        for I, f in s.insts():
            const = f is None
            f = f or ((lambda v, j: (v.a(j), v.va(j))) if I is s.A else (lambda v, j: (v.b(j), v.vb(j))))
            out.append((f'{I.tag}: validity and value of every property', forall(lambda j: s.slotstate(e, st1, I, f, j))))
            if not (s.raw and I is s.A): out.append((f'{I.tag}: undeclared bits unchanged', I.valid(e, st1) & U == (0 if getattr(s, 'clears', False) else I.valid0 & U)))
            out.append((f'{I.tag}: lifecycle (valid exactly if constructed, nothing leaked)', forall(s.life(e, st1, I))))
            if s.raw and I is s.A:
                d = st1.regs[I.obj.r].cells.get(0); out.append((f'{I.tag}: has the descriptor', isinstance(d and d[1], Ptr) and d[1].r == s.D.r and d[1].o == 0))
            if s.raw and I is s.A: out.append((f'{I.tag}: no undeclared property', I.valid(e, st1) & U == (s.B.valid0 & U if False else 0)))
        if s.post: out += s.post(s.v, ret)
        if s.retw == 'A': out.append(('returns the instance', isinstance(ret, Ptr) and ret.r == s.A.obj.r and ret.o == 0))
        return out
    def frame(s, e, st0, a): 
        fr = [(s.A.area.r, None, 0), (s.A.slots, None, 0)]
        if s.raw: fr.append((s.A.obj.r, None, 0))
        if s.B is not None and s.fB is not None: fr += [(s.B.area.r, None, 0), (s.B.slots, None, 0)]
        if s.fA is None: fr = []
        return fr

AND, OR, NOT, IF = z3.And, z3.Or, z3.Not, z3.If
UN = lambda v, j: (v.a(j), v.va(j))
def eqv(v, j, a=None):
    return IF(AND(v.a(j), v.b(j)), EQ(j, v.va(j), v.vb(j)), v.a(j) == v.b(j))
def pl(v, j, sw=False):
    a, b, x, y = (v.b(j), v.a(j), v.vb(j), v.va(j)) if sw else (v.a(j), v.b(j), v.va(j), v.vb(j))
    return AND(b, OR(NOT(a), LT(j, x, y)))
def pg(v, j, sw=False): return pl(v, j, not sw)
FIRST = z3.BitVec('first_difference', 64)   # ghost: index of the first included property whose values differ in order (N if there is none)
def first(v, incl):
    """definition of FIRST (exists by well-ordering, hence a conservative ghost definition)"""
    return [z3.ULE(FIRST, N), MARK(FIRST), z3.Implies(z3.ULT(FIRST, N), AND(incl(FIRST), OR(pl(v, FIRST), pg(v, FIRST)))),
            forall(lambda k: z3.Implies(AND(z3.ULT(k, FIRST), incl(k)), AND(NOT(pl(v, k)), NOT(pg(v, k)))))]
def lex(v, incl, sw=False):
    """the first included property that differs in order is less"""
    return AND(z3.ULT(FIRST, N), pl(v, FIRST, sw))
def alleq(v, incl): return forall(lambda j: z3.Implies(incl(j), eqv(v, j)))
def rbool(spec): return lambda v, r: [('result', to_bool(r) == spec(v))]
def noprev(incl, sw=False): return lambda v, p: [('no included property before differs in order', z3.ULE(p, FIRST))]
def sofar(incl): return lambda v, p: [('all included properties before are equal', forall(lambda j: z3.Implies(AND(z3.ULT(j, p), incl(v, j)), eqv(v, j))))]
def diffp(v, j): return AND(v.i(j), OR(v.a(j) != v.b(j), AND(v.a(j), v.b(j), NOT(EQ(j, v.va(j), v.vb(j))))))
def merged(v, j): return IF(AND(v.b(j), v.i(j)), IF(v.isstruct(j), MERGE(j, IF(v.a(j), v.va(j), DEF(j)), v.vb(j)), v.vb(j)), v.va(j))
def diffpost(v, r):
    r = to_bv(r, 32)
    return [('exactly the included properties that differ', forall(lambda j: bit(r, j) == diffp(v, j)))]
def ops():
    L = []
    SD = 'StructDescriptor::'
    asn = lambda v, j: (AND(v.b(j), v.i(j)), v.vb(j))
    cpy = lambda v, j: (IF(v.i(j), v.b(j), v.a(j)), IF(v.i(j), v.vb(j), v.va(j)))
    L.append(Op('vh_construct', SD + 'construct', 'DA', raw=True, A=lambda v, j: (z3.BoolVal(False), None), retw='A'))
    L.append(Op('vh_construct_copy', SD + 'construct (copy)', 'DAB', raw=True, A=asn, retw='A'))
    L.append(Op('vh_construct_move', SD + 'construct (move)', 'DAB', raw=True, A=asn, B=lambda v, j: (z3.BoolVal(False), None), retw='A'))
    d = Op('vh_destruct', SD + 'destruct', 'DA', A=lambda v, j: (z3.BoolVal(False), None), retw='A'); d.clears = True; L.append(d)
    L.append(Op('vh_assign', SD + 'assign', A=asn, retw='A'))
    L.append(Op('vh_assign_move', SD + 'assign (move)', A=asn, B=lambda v, j: (AND(v.b(j), NOT(v.i(j))), v.vb(j)), retw='A'))
    L.append(Op('vh_copy', SD + 'copy', A=cpy, retw='A'))
    L.append(Op('vh_merge', SD + 'merge', A=lambda v, j: (OR(v.a(j), AND(v.b(j), v.i(j))), merged(v, j)), retw='A'))
    L.append(Op('vh_swap', SD + 'swap', A=cpy, B=lambda v, j: (IF(v.i(j), v.a(j), v.b(j)), IF(v.i(j), v.va(j), v.vb(j)))))
    L.append(Op('vh_clear', SD + 'clear', 'DAi', A=lambda v, j: (AND(v.a(j), NOT(v.i(j))), v.va(j))))
    I = lambda v, j: v.i(j)
    L.append(Op('vh_equal', SD + 'equal', post=rbool(lambda v: alleq(v, v.i)), inv=sofar(I)))
    K = lambda v, j: v.keys(j)
    L.append(Op('vh_same', SD + 'same', 'DAB', post=rbool(lambda v: alleq(v, v.keys)), inv=sofar(K)))
    L.append(Op('vh_less', SD + 'less', post=rbool(lambda v: lex(v, v.i)), inv=noprev(I), pre=lambda v: first(v, v.i)))
    L.append(Op('vh_less_equal', SD + 'lessEqual', post=rbool(lambda v: NOT(lex(v, v.i, True))), inv=noprev(I), pre=lambda v: first(v, v.i)))
    L.append(Op('vh_greater', SD + 'greater', post=rbool(lambda v: lex(v, v.i, True)), inv=noprev(I), pre=lambda v: first(v, v.i)))
    L.append(Op('vh_greater_equal', SD + 'greaterEqual', post=rbool(lambda v: NOT(lex(v, v.i))), inv=noprev(I), pre=lambda v: first(v, v.i)))
    L.append(Op('vh_diff', SD + 'diffProperties', post=diffpost, res=diffp))
    no = lambda v, j: (z3.BoolVal(False), None)
    for t in ('vht', 'vhs'):
        X = SD + {'vht': 'type-erased ', 'vhs': ''}[t]
        for f in ('construct', 'in_place'):
            if (t, f) == ('vhs', 'construct'): continue
            n = 'construct' if f == 'construct' else 'constructInPlace'
            L.append(Op(f'{t}_{f}', X + n, 'DA', raw=True, A=no, retw='A'))
            L.append(Op(f'{t}_{f}_copy', X + n + ' (copy)', 'DAB', raw=True, A=asn, retw='A'))
            L.append(Op(f'{t}_{f}_move', X + n + ' (move)', 'DAB', raw=True, A=asn, B=no, retw='A'))
    X = SD + 'type-erased '
    for w, n, r in (('vht_destruct', 'destruct', None), ('vht_assign_none', 'assign (nothing)', 'A')):
        d = Op(w, X + n, 'DA', A=no, retw=r); d.clears = True; d.destroys = True; L.append(d)
    L.append(Op('vht_assign', X + 'assign', 'DAB', A=asn, retw='A'))
    L.append(Op('vht_assign_move', X + 'assign (move)', 'DAB', A=asn, B=no, retw='A'))
    L.append(Op('vht_swap', X + 'swap', 'DAB', A=lambda v, j: (v.b(j), v.vb(j)), B=UN))
    L.append(Op('vht_equal', X + 'equal', 'DAB', post=rbool(lambda v: alleq(v, v.i)), inv=sofar(I)))
    L.append(Op('vht_less', X + 'less', 'DAB', post=rbool(lambda v: lex(v, v.i)), inv=noprev(I), pre=lambda v: first(v, v.i)))
    for w, n, kw in (('vh_assign', 'assign', dict(A=lambda v, j: (AND(v.a(j), v.i(j)), v.va(j)))), ('vh_copy', 'copy', dict(A=UN)), ('vh_swap', 'swap', dict(A=UN)),
                     ('vh_merge', 'merge', dict(A=lambda v, j: (v.a(j), IF(AND(v.isstruct(j), v.i(j)), MERGE(j, v.va(j), v.va(j)), v.va(j)))))):
        L.append(Op(w, SD + n, alias=True, **kw))
    return L
