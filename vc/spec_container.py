"""Contracts of Container and ContainerPool: the key order, the update of existing instances, the bookkeeping of instances.
std::map / std::unordered_map are abstract finite maps (assumed contract); everything else is the real code."""
import z3
from .spec_struct import *
from .spec_struct import _q
from . import stdmodels as sm
M = z3.BitVec('n_list', 64); NK = z3.Array('list', BV64, BV64); POS = z3.Array('position', BV64, BV64)
LREF = 'std::reference_wrapper<dots::type::PropertyDescriptor const>'
def in_list(e, j, keys): return bit(e.props['keys'], j) if keys else z3.Not(bit(e.props['keys'], j))
def lfor(f):
    i = z3.BitVec(f'i!l{next(_q)}', 64); return z3.ForAll([i], z3.Implies(z3.ULT(i, M), f(i)), patterns=[z3.Select(NK, i)])
def key_list(e, st, keys):
    """the list of (non-)key property descriptors, exactly as the constructor establishes it"""
    q = sm.new_seq(e, st, 8, M, 'list'); r = st.wregion(q.reg); r.origin = 'pre'
    r.hook = lambda e_, st_, r_, off, T: Ptr(e_.pds, norm(z3.Select(NK, to_bv(off[0], 64))), 0) if T['k'] == 'ptr' and off[1] == 0 else None
    e.posreg = q.reg; e.poslen = M
    st.assume(z3.ULE(M, N))
    st.assume(lfor(lambda i: z3.And(z3.ULT(z3.Select(NK, i), N), z3.Select(POS, z3.Select(NK, i)) == i, in_list(e, z3.Select(NK, i), keys))))
    st.assume(forall(lambda j: z3.Implies(in_list(e, j, keys), z3.And(z3.ULT(z3.Select(POS, j), M), z3.Select(NK, z3.Select(POS, j)) == j))))
    i, k = z3.BitVec('i!o', 64), z3.BitVec('k!o', 64)
    st.assume(z3.ForAll([i, k], z3.Implies(z3.And(z3.ULT(i, k), z3.ULT(k, M)), z3.ULT(z3.Select(NK, i), z3.Select(NK, k))), patterns=[z3.MultiPattern(z3.Select(NK, i), z3.Select(NK, k))]))
    return q
def container_loops(e): e.loop_specs.insert(0, (lambda e_, st, fr, h: getattr(e_, 'opinv', None) is not None and e_.m.funcs[fr.fn]['dem'].startswith('dots::Container<'), STRUCT_LOOP))
def CF(e, n): return e.m.field('dots::Container<dots::type::Struct>', n)
def updated(e, A, B, incl, j):
    """non-key property j is replaced by the update's value (or invalidated) if it is included"""
    u = z3.And(z3.Not(bit(e.props['keys'], j)), bit(incl, j))
    return z3.If(u, bit(B.valid0, j), bit(A.valid0, j)), z3.If(z3.And(u, bit(B.valid0, j)), z3.Select(B.val0, j), z3.Select(A.val0, j))
class Update(Op):
    """Container::updateWithoutKeys"""
    def __init__(s, alias=False):
        super().__init__('vh_update', 'Container::updateWithoutKeys', 'DABi', alias=alias)
    def setup(s, e, st):
        super().setup(e, st)
        s.fA = lambda v, j: updated(e, s.A, s.B, s.incl, j)
        q = key_list(e, st, False); C = st.alloc('container', size=e.m.clssize('dots::Container<dots::type::Struct>'), lazy=True, origin='pre'); s.C = C
        sm.put_seq(e, st, e.padd(st, C, CF(e, 'm_noKeyPropertyDescriptors')), q, 24, init=True)
        e.opinv = s.opinv; container_loops(e)
        return [C, s.A.obj, s.B.obj, s.incl]
    def opinv(s, e, st, p):
        # restate with positions in the list
        out = []
        done = lambda j: z3.And(z3.Not(bit(e.props['keys'], j)), z3.ULT(z3.Select(POS, j), p))
        for I, f in s.insts():
            init = (lambda v, j: (v.a(j), v.va(j))) if I is s.A else (lambda v, j: (v.b(j), v.vb(j)))
            f = f or init
            try: V1 = I.valid(e, st)
            except Exception: continue
            out.append((f'{I.tag}: processed part final, rest initial', forall(lambda j: z3.If(done(j), s.slotstate(e, st, I, f, j), s.slotstate(e, st, I, init, j)))))
            out.append((f'{I.tag}: undeclared bits', V1 & U == I.valid0 & U)); out.append((f'{I.tag}: lifecycle', forall(s.life(e, st, I))))
        return out
FIRSTK = z3.BitVec('first_key_difference', 64)
class KeyLess(Op):
    """the order of instances: lexicographic over the key properties, in descriptor order"""
    def __init__(s, w, n, any_=('', '')): super().__init__(w, 'Container::key_compare' + n, 'DAB'); s.any = any_
    def setup(s, e, st):
        super().setup(e, st); v = s.v
        q = key_list(e, st, True); K = st.alloc('key_compare', size=e.m.clssize('dots::Container<dots::type::Struct>::key_compare'), lazy=True, origin='pre')
        sm.put_seq(e, st, e.padd(st, K, e.m.field('dots::Container<dots::type::Struct>::key_compare', 'm_keyPropertyDescriptors')), q, 24, init=True)
        st.assume(forall(lambda j: z3.Implies(v.keys(j), z3.And(v.a(j), v.b(j)))))         # instances in use have their key properties
        at = lambda i: z3.Select(NK, i); lt = lambda j, x, y: LT(j, x(j), y(j)); s.lt = lt
        st.assume(z3.ULE(FIRSTK, M)); st.assume(z3.Implies(z3.ULT(FIRSTK, M), z3.Or(lt(at(FIRSTK), v.va, v.vb), lt(at(FIRSTK), v.vb, v.va))))
        st.assume(lfor(lambda i: z3.Implies(z3.ULT(i, FIRSTK), z3.Not(z3.Or(lt(at(i), v.va, v.vb), lt(at(i), v.vb, v.va))))))
        s.inv_ = lambda v_, p: [('no key property before differs in order', z3.ULE(p, FIRSTK))]
        s.post = lambda v_, r: [('less exactly if the first differing key property is less', to_bool(r) == z3.And(z3.ULT(FIRSTK, M), lt(at(FIRSTK), v.va, v.vb)))]
        e.opinv = s.opinv; container_loops(e); args = [K]
        for I, a in ((s.A, s.any[0]), (s.B, s.any[1])):
            p = I.obj
            if a: p = st.alloc('AnyStruct ' + I.tag, size=8, origin='pre'); st.wregion(p.r).cells[0] = (8, I.obj)
            args.append(p)
        return args
    def opinv(s, e, st, p): return s.inv_(s.v, p)
class Lists(Contract):
    """constructors: the list holds exactly the (non-)key properties, in descriptor order"""
    CNT = z3.Array('count', BV64, BV64)
    def __init__(s, w, n, keys, cls, field): super().__init__(w); s.name = n; s.keys = keys; s.cls = cls; s.field = field
    def setup(s, e, st):
        install(e); s.D = world(e, st); e.posreg = None; e.poslen = None; e.opres = None
        st.assume(z3.Select(s.CNT, z3.BitVecVal(0, 64)) == 0)
        c = lambda j: z3.Select(s.CNT, j)
        st.assume(forall(lambda j: c(j + 1) == c(j) + z3.If(s.isin(e, j), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))))
        st.assume(forall(lambda j: z3.ULE(c(j), j)))
        s.lists = {}
        def newvec(e_, st_, a, f_, ins):
            q = sm.new_seq(e_, st_, 8, 0, 'list'); w = st_.wregion(q.reg); w.arrs['ix'] = z3.Const(fresh_name('ix'), z3.ArraySort(BV64, BV64)); sm.put_seq(e_, st_, a[0], q, 24); s.lists[q.reg] = a[0]; return None
        def emplace(e_, st_, a, f_, ins):
            q = sm.get_seq(e_, st_, a[0], 8); n = to_bv(q.len, 64); p = a[1]
            if not (isinstance(p, Ptr) and p.r == e_.pds): e_.prove(st_, False, 'only descriptors of this type are listed'); return None
            w = st_.wregion(q.reg); w.arrs['ix'] = z3.Store(w.arrs['ix'], n, to_bv(p.i, 64)); st_.writes.add((q.reg, 'seq', 'ix')); sm.set_len(e_, st_, a[0], q, n + 1)
            return Ptr(q.reg, norm(n), 0)
        V = r'std::vector<std::reference_wrapper<dots::type::PropertyDescriptor const>.*>::'
        e.model('^' + V + r'vector\(\)', newvec, front=True); e.model(V + r'(emplace_back|push_back)', emplace, front=True)
        e.model('^' + V + r'vector\((std::vector|.*&&|.*const&)', s.copyvec, front=True); e.model('^' + V + r'~vector\(\)', lambda *a: None, front=True)
        e.model(r'^dots::type::PropertyDescriptor::isKey\(\) const$', s.iskey, front=True)
        e.model(r'std::map<dots::type::AnyStruct.*>::map\(', lambda *a: None, front=True); e.model(r'std::map<dots::type::AnyStruct.*>::~map\(', lambda *a: None, front=True)
        e.model(r'key_compare::key_compare\(dots::type::StructDescriptor', lambda *a: None, front=True) if not s.keys else None
        e.model(r'key_compare::~key_compare\(', lambda *a: None, front=True); e.model(r'key_compare::key_compare\(.*key_compare (const&|&&)', lambda *a: None, front=True)
        s.obj = st.alloc('object', size=e.m.clssize(s.cls), origin='stack'); e.ln = s
        e.opinv = s.opinv; container_loops(e)
        return [s.obj, s.D]
    def copyvec(s, e, st, a, f, ins): raise Unsupported('copy of a descriptor list')
    def iskey(s, e, st, a, f, ins):
        p = a[0]
        if not (isinstance(p, Ptr) and p.r == e.pds): raise Unsupported('isKey of an unknown property')
        return bit(e.props['keys'], to_bv(p.i, 64))
    def isin(s, e, j): return in_list(e, j, s.keys)
    def seq(s, e, st):
        q = st.regs[s.obj.r].cells.get(e.m.field(s.cls, s.field)); return q[1] if q and isinstance(q[1], sm.Seq) else None
    def spec(s, e, st, p):
        q = s.seq(e, st)
        if q is None: return []
        ix = st.regs[q.reg].arrs['ix']; c = lambda j: z3.Select(s.CNT, j)
        return [('length of the list', to_bv(q.len, 64) == c(p)), ('every property before is listed at its place', forall(lambda j: z3.Implies(z3.And(z3.ULT(j, p), s.isin(e, j)), z3.And(z3.ULT(c(j), c(p)), z3.Select(ix, c(j)) == j))))]
    def opinv(s, e, st, p): return s.spec(e, st, p)
    def ensures(s, e, st0, st1, a, r):
        out = s.spec(e, st1, N); return [(n, c) for n, c in out] if out else [('the list exists', z3.BoolVal(False))]

def static_props(e):
    """descriptors of the properties of generated types are objects with dynamic initialisation; assumed: what the constant metadata says"""
    cache = {}
    def desc(e_, st, a, f, ins):
        X = re.match(r'^(?:.* )?dots::type::StaticProperty<(.*)>::derivedDescriptor\(\)$', f['dem']).group(1); k = cache.get(X)
        if k is None or k.r not in st.regs:
            P = sm.targs('x<' + X + '>')[-1]; g = next((n for n, x in e_.m.globals.items() if x['dem'] == P + '::Metadata'), None)
            if g is None: raise Unsupported('metadata of ' + P)
            k = st.alloc('descriptor of ' + P, size=e_.m.clssize('dots::type::PropertyDescriptor'), lazy=True, origin='pre')
            md = e_.gptr(st, g); F = lambda n: e_.m.field('dots::type::StaticPropertyMetadata', n)
            w = st.wregion(k.r); D = lambda n: e_.m.field('dots::type::PropertyDescriptor', n)
            w.cells[D('m_set')] = (4, e_.rd(st, e_.padd(st, md, F('m_set')), 32)); w.cells[D('m_descriptor')] = (8, st.alloc('value descriptor of ' + P, size=None, lazy=True, origin='pre'))
        return k
    e.model(r'^.*dots::type::StaticProperty<.*>::derivedDescriptor\(\)$', desc, front=True)
# ---- bookkeeping ------------------------------------------------------------------------------------------
NODE = r'std::_Node_handle<dots::type::AnyStruct,.*>::'
MAP = r'std::map<dots::type::AnyStruct, dots::types::DotsCloneInformation,.*>::'
MAPM = r'_ZNK?St3mapIN4dots4type9AnyStructENS0_5types20DotsCloneInformationE.*'
CI = 'dots::types::DotsCloneInformation'
TM = z3.BitVec('now', 64)
class Book(Contract):
    """common part: a container with (or without) an instance equivalent to the argument"""
    exists = True; throws = False
    def setup(s, e, st):
        e.dyninit = r'::Metadata$'; install(e); s.D = world(e, st); m = e.m
        s.A = Inst(e, st, 'A', s.D); s.B = Inst(e, st, 'B', s.D); e.book = s
        s.C = st.alloc('container', size=m.clssize('dots::Container<dots::type::Struct>'), lazy=True, origin='pre')
        s.map = e.padd(st, s.C, CF(e, 'm_instances'))
        cs = m.clssize(CI); s.vt = 32; s.co = 8   # node header; value type: AnyStruct (8), clone information
        s.node = st.alloc('node', size=s.vt + s.co + cs, lazy=True, origin='pre'); s.next = st.alloc('end of the map', size=None, lazy=True, origin='pre')
        s.new = st.alloc('new node', size=s.vt + s.co + cs, lazy=True, origin='heap')
        st.wregion(s.node.r).cells[s.vt] = (8, s.A.obj)
        s.hdr = st.alloc('header', size=m.clssize('dots::types::DotsHeader'), lazy=True, origin='pre')
        s.f = {n: m.field(CI, n) for n in ('lastOperation', 'lastUpdateFrom', 'created', 'createdFrom', 'modified', 'localUpdateTime')}
        s.h = {n: m.field('dots::types::DotsHeader', n) for n in ('attributes', 'sender', 'sentTime')}
        s.tags = dict(lastOperation=1, lastUpdateFrom=2, created=3, createdFrom=4, modified=5, localUpdateTime=6); s.htags = dict(sentTime=2, attributes=3, sender=5)
        s.w = dict(lastOperation=32, lastUpdateFrom=32, created=64, createdFrom=32, modified=64, localUpdateTime=64)
        for r, o in ((s.hdr, 0), (s.node, s.vt + s.co)):
            e.rd(st, e.padd(st, r, o + 8), 32)
            for n, off in (s.h if r is s.hdr else s.f).items(): e.rd(st, e.padd(st, r, o + off), (dict(attributes=32, sender=32, sentTime=64) if r is s.hdr else s.w)[n])
        st.ghost['map'] = 'in' if s.exists else 'none'; st.ghost['emplaced'] = 0; st.ghost['updates'] = ()
        s.models(e); s.info0 = {n: s.prop(e, st, s.node, n) for n in s.f}
        s.hd = {n: (z3.Extract(t, t, to_bv(e.rd(st, e.padd(st, s.hdr, 8), 32), 32)) == 1, to_bv(e.rd(st, e.padd(st, s.hdr, s.h[n]), 64 if n == 'sentTime' else 32), 64 if n == 'sentTime' else 32)) for n, t in s.htags.items()}
        return s.args(e, st)
    def prop(s, e, st, node, n):
        v = to_bv(e.rd(st, e.padd(st, node, s.vt + s.co + 8), 32), 32); t = s.tags[n]
        return z3.Extract(t, t, v) == 1, to_bv(e.rd(st, e.padd(st, node, s.vt + s.co + s.f[n]), s.w[n]), s.w[n])
    def is_map(s, p): return isinstance(p, Ptr) and p.r == s.map.r and p.o == s.map.o
    def models(s, e):
        def same(st, p, what): e.prove(st, isinstance(p, Ptr) and p.r == s.map.r and e.must(st, to_bv(p.o, 64) == to_bv(s.map.o, 64)), f'{what} of the container of instances')
        def isB(st, p, what): e.prove(st, isinstance(p, Ptr) and p.r == s.B.obj.r, f'{what} looks for the given instance')
        def there(st): return st.ghost['map'] == 'in'
        def find(e_, st, a, f, ins): same(st, a[0], 'lookup'); isB(st, a[1], 'lookup'); return s.node if there(st) else s.next
        def lower(e_, st, a, f, ins): same(st, a[0], 'lookup'); isB(st, a[1], 'lookup'); return s.node if there(st) else s.next
        def upper(e_, st, a, f, ins): same(st, a[0], 'lookup'); isB(st, a[1], 'lookup'); return s.next
        def eqr(e_, st, a, f, ins):
            if len(a) == 3: raise Unsupported('equal_range by memory')
            same(st, a[0], 'lookup'); isB(st, a[1], 'lookup'); return [s.node if there(st) else s.next, s.next]
        def end(e_, st, a, f, ins): return s.next
        def emplace(e_, st, a, f, ins):
            same(st, a[0], 'insertion'); x, ci = a[-2], a[-1]; isB(st, x, 'insertion')
            e_.prove(st, not there(st), 'an equivalent instance is not inserted twice'); st.ghost['emplaced'] += 1; st.ghost['map'] = 'new'
            cs = e_.m.clssize(CI)
            for off, w in [(8, 32)] + [(s.f[n], s.w[n]) for n in s.f]:
                e_.wr(st, e_.padd(st, s.new, s.vt + s.co + off), w, e_.rd(st, e_.padd(st, ci, off), w))
            return [s.new, z3.BoolVal(True)] if 'hint' not in f['dem'] else s.new
        def extract(e_, st, a, f, ins):
            out, mp, it = a; same(st, mp, 'extraction'); e_.prove(st, there(st) and isinstance(it, Ptr) and it.r == s.node.r, 'the equivalent instance is extracted')
            s.set_node(e_, st, out, s.node); st.ghost['map'] = 'out'; return None
        def extract_key(e_, st, a, f, ins):
            out, mp, k = a; same(st, mp, 'extraction'); isB(st, k, 'extraction')
            if there(st): s.set_node(e_, st, out, s.node); st.ghost['map'] = 'out'
            else: s.set_node(e_, st, out, NULL)
            return None
        def reinsert(e_, st, a, f, ins):
            same(st, a[0], 'insertion'); n = a[-1]; p = e_.rdp(st, n)
            e_.prove(st, st.ghost['map'] == 'out' and isinstance(p, Ptr) and p.r == s.node.r, 'the extracted instance is inserted again'); st.ghost['map'] = 'in'; s.set_node(e_, st, n, NULL)
            return s.node
        def drop(e_, st, a, f, ins):
            p = e_.rdp(st, a[0])
            if isinstance(p, Ptr) and p.r == s.node.r: st.ghost['map'] = 'destroyed'
            return None
        def move(e_, st, a, f, ins):
            p = e_.rdp(st, a[1]); s.set_node(e_, st, a[1], NULL); s.set_node(e_, st, a[0], p); return a[0]
        def assign(e_, st, a, f, ins):
            old = e_.rdp(st, a[0])
            if isinstance(old, Ptr) and old.r == s.node.r: st.ghost['map'] = 'destroyed'
            return move(e_, st, a, f, ins)
        def mk(e_, st, a, f, ins): s.set_node(e_, st, a[0], NULL); return None
        def update(e_, st, a):
            c, x, y, inc = a
            e_.prove(st, isinstance(c, Ptr) and c.r == s.C.r and isinstance(x, Ptr) and x.r == s.A.obj.r and isinstance(y, Ptr) and y.r == s.B.obj.r, 'the existing instance is updated from the given one')
            st.ghost['updates'] += ((st.ghost['map'], to_bv(inc, 32)),)
            return None
        def now(e_, st, a, f, ins):
            t = z3.BitVec(fresh_name('now'), 64); return z3.fpBVToFP(t, z3.Float64()) if e_.m.types[ins['t']]['k'] not in ('int', 'struct') else t
        M_ = lambda r, h: e.model(r, h, front=True)
        M_('^(decltype.*)?' + MAP + r'find|^' + MAPM + r'4find|_M_find_tr|^std::_Rb_tree<.*>::find\(', find); M_('^(.*)?' + MAP + r'lower_bound|^' + MAPM + '11lower_bound', lower); M_('^(.*)?' + MAP + r'upper_bound|^' + MAPM + '11upper_bound', upper)
        M_('^(.*)?' + MAP + r'equal_range|^' + MAPM + '11equal_range', eqr); M_('^' + MAP + r'(c?end)\(', end)
        M_(r'^.*' + MAP + r'(emplace|try_emplace|emplace_hint)<', emplace)
        M_('^' + MAP + r'extract\(std::_Rb_tree_const_iterator', extract); M_('^(.*)?' + MAP + r'extract(\(dots::type::AnyStruct const&|<)', extract_key)
        M_('^' + MAP + r'insert\(std::_Rb_tree_const_iterator.*_Node_handle', reinsert)
        M_('^' + NODE + r'~_Node_handle\(', drop); M_('^' + NODE + r'_Node_handle\(std::_Node_handle<.*&&\)', move); M_('^' + NODE + r'operator=\(', assign); M_('^' + NODE + r'_Node_handle\(\)', mk)
        M_(r'TimePointImpl<.*>::Now\(\)$', now)
        M_(r'^dots::type::StaticStruct<dots::types::DotsCloneInformation>::_Descriptor\(\)', lambda e_, st, a, f, ins: st.alloc('clone information type', size=None, lazy=True, origin='pre'))
        static_props(e)
        M_(r'^dots::type::AnyStruct::AnyStruct\(', lambda e_, st, a, f, ins: (_ for _ in ()).throw(Unsupported('copy of an instance')))
        k = e.m.one(r'^dots::Container<dots::type::Struct>::updateWithoutKeys\('); e.contracts[k] = VD('updateWithoutKeys', update)
    def set_node(s, e, st, p, v):
        """node handle: node, allocator, cached addresses of key and mapped value"""
        e.wrp(st, p, v); full = not is_null(v)
        e.wrp(st, e.padd(st, p, 8), e.padd(st, v, s.vt) if full else NULL); e.wrp(st, e.padd(st, p, 16), e.padd(st, v, s.vt + s.co) if full else NULL)
    def frame(s, e, st0, a): return None
    def xensures(s, e, st0, st1, a): return [('the instance stays in the container', z3.BoolVal(st1.ghost['map'] == st0.ghost['map']))]
    def eqp(s, p, q): return z3.And(p[0] == q[0], z3.Implies(p[0], p[1] == q[1]))
    def info(s, e, st, node, op, created):
        P = lambda n: s.prop(e, st, node, n); H = s.hd; DM = dict(create=0, update=1, remove=2)[op]
        out = [('last operation', z3.And(P('lastOperation')[0], P('lastOperation')[1] == DM)), ('last update from the sender', s.eqp(P('lastUpdateFrom'), H['sender'])), ('modified at the sent time', s.eqp(P('modified'), H['sentTime'])), ('local update time is set', P('localUpdateTime')[0])]
        if created: out += [('created at the sent time', s.eqp(P('created'), H['sentTime'])), ('created from the sender', s.eqp(P('createdFrom'), H['sender']))]
        else: out += [('creation information is kept', z3.And(s.eqp(P('created'), s.info0['created']), s.eqp(P('createdFrom'), s.info0['createdFrom'])))]
        return out
    def upd(s, st):
        u = st.ghost['updates']
        return [('updated exactly once, with the included properties of the header', z3.And(len(u) == 1, u[0][1] == s.hd['attributes'][1], s.hd['attributes'][0]) if len(u) == 1 else z3.BoolVal(False))]
    def at(s, e, st, r, node, off): return isinstance(r, Ptr) and r.r == node.r and r.o == off
class Insert(Book):
    def __init__(s, exists): super().__init__('vh_insert'); s.exists = exists; s.name = 'Container::insert ' + ('(known instance)' if exists else '(new instance)'); s.throws = exists
    def args(s, e, st): return [s.C, s.hdr, s.B.obj]
    def ensures(s, e, st0, st, a, r):
        if not s.exists: return [('the instance is added once', st.ghost['map'] == 'new' and st.ghost['emplaced'] == 1), ('nothing is updated', st.ghost['updates'] == ()), ('returns the added element', s.at(e, st, r, s.new, s.vt))] + s.info(e, st, s.new, 'create', True)
        return [('the instance is still in the container', st.ghost['map'] == 'in'), ('nothing is added', st.ghost['emplaced'] == 0), ('returns the element', s.at(e, st, r, s.node, s.vt))] + s.upd(st) + s.info(e, st, s.node, 'update', False)
class Remove(Book):
    def __init__(s, exists): super().__init__('vh_remove'); s.exists = exists; s.name = 'Container::remove ' + ('(known instance)' if exists else '(unknown instance)'); s.throws = exists
    def args(s, e, st): s.out = st.alloc('result', size=24, origin='stack'); return [s.out, s.C, s.hdr, s.B.obj]
    def ensures(s, e, st0, st, a, r):
        p = e.rdp(st, s.out); got = isinstance(p, Ptr) and not is_null(p) and p.r == s.node.r
        if not s.exists: return [('returns nothing', not got), ('nothing is added, removed or updated', st.ghost['map'] == 'none' and st.ghost['emplaced'] == 0 and st.ghost['updates'] == ())]
        return [('the instance left the container and is returned', got and st.ghost['map'] == 'out'), ('nothing is added', st.ghost['emplaced'] == 0)] + s.upd(st) + s.info(e, st, s.node, 'remove', False)
class Find(Book):
    def __init__(s, w, n, exists, get, inst): super().__init__(w); s.exists = exists; s.get = get; s.inst = inst; s.name = f'Container::{n} ' + ('(known instance)' if exists else '(unknown instance)'); s.throws = get and not exists; s.never_returns = get and not exists
    def args(s, e, st): return [s.C, s.B.obj]
    def frame(s, e, st0, a): return []
    def ensures(s, e, st0, st, a, r):
        if s.exists: return [('the clone of the equivalent instance', isinstance(r, Ptr) and r.r == s.A.obj.r and r.o == 0 if s.inst else s.at(e, st, r, s.node, s.vt)), ('unchanged', st.ghost['map'] == 'in')]
        return [('no result', is_null(r) and not s.get)]
def is_null(p): return isinstance(p, Ptr) and p.r == NULL.r and is_conc(p.o) and p.o == NULL.o
def contracts():
    C = [Update(), Update(alias=True), KeyLess('vh_key_less', ''), KeyLess('vh_key_less_as', ' (AnyStruct, Struct)', (1, 0)), KeyLess('vh_key_less_sa', ' (Struct, AnyStruct)', (0, 1)), KeyLess('vh_key_less_aa', ' (AnyStruct, AnyStruct)', (1, 1)),
         Lists('vh_key_compare', 'Container::key_compare::key_compare', True, 'dots::Container<dots::type::Struct>::key_compare', 'm_keyPropertyDescriptors'), Lists('vh_container', 'Container::Container', False, 'dots::Container<dots::type::Struct>', 'm_noKeyPropertyDescriptors')]
    for x in (True, False): C += [Insert(x), Remove(x), Find('vh_find_clone', 'findClone', x, False, False), Find('vh_get_clone', 'getClone', x, True, False), Find('vh_find', 'find', x, False, True), Find('vh_get', 'get', x, True, True)]
    return C

# ---- ContainerPool ------------------------------------------------------------------------------------------
UM = r'std::unordered_map<dots::type::StructDescriptor const\*, dots::Container<dots::type::Struct>.*>::'
NM = r'std::map<std::__cxx11::basic_string<char.*>, dots::Container<dots::type::Struct>\*,.*>::'
NMM = r'_ZNK?St3mapINSt7__cxx1112basic_string.*'
PN = r'std::_Node_handle<dots::type::StructDescriptor const\*,.*>::'
class Pool(Contract):
    """pool: with or without a container of the type; cache: the name refers to it, to another container, or to nothing"""
    def __init__(s, w, n, fnargs, pool, cache, post, raises=False):
        super().__init__(w); s.name = f'ContainerPool::{n} (container {pool}, name {cache})'; s.fa, s.pool, s.cache, s.post = fnargs, pool, cache, post; s.throws = raises; s.never_returns = raises
    def setup(s, e, st):
        sm.install(e, vector_types=()); m = e.m
        s.D = st.alloc('descriptor', size=m.clssize('dots::type::StructDescriptor'), lazy=True, origin='pre')
        s.P = st.alloc('pool', size=m.clssize('dots::ContainerPool'), lazy=True, origin='pre'); F = lambda n: m.field('dots::ContainerPool', n); s.fp, s.fn_ = F('m_pool'), F('m_nameCache')
        cs = m.clssize('dots::Container<dots::type::Struct>'); s.node = st.alloc('pool node', size=16 + cs, lazy=True, origin='pre'); st.wregion(s.node.r).cells[8] = (8, s.D)
        s.pend = st.alloc('pool end', size=0, origin='pre'); s.cend = st.alloc('cache end', size=0, origin='pre')
        s.new = st.alloc('new pool node', size=16 + cs, lazy=True, origin='heap'); st.wregion(s.new.r).cells[8] = (8, s.D)
        s.other = st.alloc('another container', size=cs, lazy=True, origin='pre'); s.cn = st.alloc('cache node', size=72, lazy=True, origin='pre')
        st.wregion(s.cn.r).cells[64] = (8, Ptr(s.node.r, 0, 16) if s.cache == 'here' else s.other)
        s.view = st.alloc('name', size=16, lazy=True, origin='pre'); s.chars = st.alloc('characters', size=None, lazy=True, origin='pre'); st.wregion(s.view.r).cells[0] = (8, Z64('name_len')); st.wregion(s.view.r).cells[8] = (8, s.chars)
        s.nameoff = m.field('dots::type::Descriptor<dots::type::Typeless>', 'm_name')
        st.ghost.update(pool=s.pool, cache=s.cache); s.models(e)
        s.out = st.alloc('result', size=24, origin='stack')
        return [{'P': s.P, 'D': s.D, 'N': s.view, 'O': s.out, '1': z3.BoolVal(True), '0': z3.BoolVal(False)}[c] for c in s.fa]
    def models(s, e):
        def key(st, p, what):
            d = p if isinstance(p, Ptr) and p.r == s.D.r else e.rdp(st, p)
            e.prove(st, isinstance(d, Ptr) and d.r == s.D.r and d.o == 0, f'{what} for the given type')
        def name(st, p, what):
            ok = isinstance(p, Ptr) and (p.r == s.D.r and p.o == s.nameoff or p.r == s.view.r)
            if isinstance(p, Ptr) and not ok and p.r in st.regs:
                c = [st.regs[p.r].cells.get(p.o + k) for k in (0, 8)]; ok = any(x and isinstance(x[1], Ptr) and x[1].r in (s.chars.r, s.D.r) for x in c)
            e.prove(st, ok, f'{what} for the given name')
        there = lambda st: s.node if st.ghost['pool'] == 'in' else s.new if st.ghost['pool'] == 'new' else s.pend
        def find(e_, st, a, f, ins): key(st, a[1], 'lookup'); return there(st)
        def trye(e_, st, a, f, ins):
            key(st, a[1], 'insertion'); e_.prove(st, isinstance(a[-1], Ptr) and a[-1].r == s.D.r, 'the container is created for the given type')
            isnew = st.ghost['pool'] == 'none'
            if isnew: st.ghost['pool'] = 'new'
            return [there(st), z3.BitVecVal(int(isnew), 8)]
        def take(st, out):
            hit = st.ghost['pool'] == 'in'
            for o, v in ((0, s.node), (8, e.padd(st, s.node, 8)), (16, e.padd(st, s.node, 16))): e.wrp(st, e.padd(st, out, o), v if hit else NULL)
            if hit: st.ghost['pool'] = 'out'
        def extract(e_, st, a, f, ins): key(st, a[2], 'extraction'); take(st, a[0])
        def extract_it(e_, st, a, f, ins): e_.prove(st, isinstance(a[2], Ptr) and a[2].r == s.node.r and st.ghost['pool'] == 'in', 'the container of the type is extracted'); take(st, a[0])
        def cfind(e_, st, a, f, ins): name(st, a[1], 'lookup'); return s.cend if st.ghost['cache'] == 'none' else s.cn
        def cemplace(e_, st, a, f, ins):
            name(st, a[1], 'insertion'); c = e_.rdp(st, a[2]) ; t = there(st); ok = isinstance(c, Ptr) and isinstance(t, Ptr) and c.r == t.r and c.o == 16
            e_.prove(st, ok, 'the name refers to the new container'); isnew = st.ghost['cache'] == 'none'
            if isnew: st.ghost['cache'] = 'new'
            return [s.cn, z3.BitVecVal(int(isnew), 8)]
        def cerase(e_, st, a, f, ins):
            if isinstance(a[1], Ptr) and a[1].r != s.cn.r: name(st, a[1], 'erasure')
            st.ghost['cache'] = 'none'; return s.cend if 'unsigned long' not in f['dem'] else z3.BitVecVal(1, 64)
        def drop(e_, st, a, f, ins):
            p = e_.rdp(st, a[0])
            if isinstance(p, Ptr) and p.r == s.node.r: st.ghost['pool'] = 'destroyed'
            return None
        def move(e_, st, a, f, ins):
            for o in (0, 8, 16): e_.wrp(st, e_.padd(st, a[0], o), e_.rdp(st, e_.padd(st, a[1], o)))
            e_.wrp(st, a[1], NULL); return a[0]
        M_ = lambda r, h: e.model(r, h, front=True)
        M_('^' + UM + r'find\(', find); M_('^(.*)?' + UM + r'try_emplace', trye); M_('^' + UM + r'extract\(dots', extract); M_('^' + UM + r'extract\(std::__detail', extract_it); M_('^' + UM + r'(c?end)\(', lambda e_, st, a, f, ins: s.pend)
        M_('^(decltype.*)?' + NM + r'find|^' + NMM + '4find', cfind); M_('^.*' + NM + r'(emplace|try_emplace|insert_or_assign)<', cemplace); M_('^' + NM + r'c?end\(', lambda e_, st, a, f, ins: s.cend); M_('^.*' + NM + r'erase', cerase)
        M_('^' + PN + r'~_Node_handle\(', drop); M_('^' + PN + r'_Node_handle\(std::_Node_handle<.*&&\)', move)
        M_(r'^std::__cxx11::basic_string<.*>::operator std::basic_string_view<.*>\(\) const$', lambda e_, st_, a, f_, ins: [z3.BitVec(fresh_name('len'), 64), a[0]])
        M_(r'^std::__cxx11::basic_string<char.*> std::operator\+<', sm.opaque_string); M_(r'^std::__cxx11::basic_string<.*>::(~?basic_string)(<.*>)?\(', lambda e_, st_, a, f_, ins: None)
    def frame(s, e, st0, a): return [(s.out.r, None, 0)]
    def xensures(s, e, st0, st1, a): return [('nothing changes', st1.ghost['pool'] == s.pool and st1.ghost['cache'] == s.cache)]
    def ensures(s, e, st0, st, a, r): return s.post(s, e, st, r)
def Z64(n): return z3.BitVec(n, 64)
def pool_contracts():
    same = lambda s, st: ('nothing changes', st.ghost['pool'] == s.pool and st.ghost['cache'] == s.cache)
    cont = lambda r, n: isinstance(r, Ptr) and r.r == n.r and r.o == 16
    here = lambda s, e, st, r: [('the container of the type', cont(r, s.node)), same(s, st)]
    none = lambda s, e, st, r: [('no result', is_null(r)), same(s, st)]
    created = lambda s, e, st, r: [('a new container of the type', cont(r, s.new) and st.ghost['pool'] == 'new'), ('its name refers to it', st.ghost['cache'] == ('new' if s.cache == 'none' else s.cache))]
    byname = lambda s, e, st, r: [('the container of the name', cont(r, s.node) if s.cache == 'here' else isinstance(r, Ptr) and r.r == s.other.r and r.o == 0), same(s, st)]
    def removed(s, e, st, r):
        p = e.rdp(st, s.out)
        return [('the container left the pool and is returned', st.ghost['pool'] == 'out' and isinstance(p, Ptr) and p.r == s.node.r), ('its name does not refer to it any more, another container keeps its name', st.ghost['cache'] == ('none' if s.cache == 'here' else s.cache))]
    C = []
    for cache in ('here', 'other'):
        C += [Pool('vh_pool_find', 'find', 'PD', 'in', cache, here), Pool('vh_pool_get', 'get', 'PD1', 'in', cache, here), Pool('vh_pool_get', 'get, no insertion', 'PD0', 'in', cache, here), Pool('vh_pool_remove', 'remove', 'OPD', 'in', cache, removed), Pool('vh_pool_find_name', 'find by name', 'PN', 'in', cache, byname), Pool('vh_pool_get_name', 'get by name', 'PN', 'in', cache, byname)]
    for cache in ('none', 'other'):
        C += [Pool('vh_pool_find', 'find', 'PD', 'none', cache, none), Pool('vh_pool_get', 'get', 'PD1', 'none', cache, created), Pool('vh_pool_get', 'get, no insertion', 'PD0', 'none', cache, none, raises=True), Pool('vh_pool_remove', 'remove', 'OPD', 'none', cache, none, raises=True)]
    C += [Pool('vh_pool_find_name', 'find by name', 'PN', 'none', 'none', none), Pool('vh_pool_get_name', 'get by name', 'PN', 'none', 'none', none, raises=True)]
    return C
