"""Contracts of the host: whom a transmission is forwarded to, what joining, leaving, failing and closing do.
Connections, groups and cached instances are arbitrary finite sets; the unordered containers that hold them are abstract."""
import itertools, z3
from .contract import *
from .spec_container import static_props, VD
from . import stdmodels as sm
from .spec_dispatch import IDS, END, sel, all_, callees
HT = 'dots::HostTransceiver'; CO = 'dots::Connection'; _n = itertools.count()
MAP = z3.ArraySort(BV64, BV64); ST8 = z3.ArraySort(BV64, bvw(32))
G = lambda st, n: st.ghost['~' + n]
def setg(st, n, v): c = z3.Const(fresh_name(n), v.sort()); st.assume(c == v); st.ghost['~' + n] = c
def put_(st, n, k, b=True): setg(st, n, z3.Store(G(st, n), k, z3.BoolVal(b)))
def no_log(e):
    e.model(r'^dots::tools::loggingFrontend\(\)', lambda e_, st, a, f, ins: st.alloc('logging', size=None, lazy=True, origin='pre'), front=True)
    e.model(r'^dots::tools::LogFrontend::shouldLog\(', lambda e_, st, a, f, ins: z3.BitVecVal(0, 8), front=True)
def tokens(e):
    """strings are opaque values: a copy has the value of the original, everything else is arbitrary"""
    M_ = lambda r, h: e.model(r, h, front=True); BS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'; fresh = lambda: z3.BitVec(fresh_name('string'), 64)
    def ctor(e_, st, a, f, ins):
        src = re.search(r'basic_string\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> ?(const&|&&)', f['dem'])
        if src: v = to_bv(e_.rd(st, a[1], 64), 64)
        elif len(a) > 2 and 'basic_string_view' in f['dem'] and any(isinstance(x, Ptr) for x in a[1:]): v = F_SV(next(x for x in a[1:] if isinstance(x, Ptr)), e_, st)
        else: v = fresh()
        e_.wr(st, a[0], 64, v); return None
    def F_SV(p, e_, st):
        try: return to_bv(e_.rd(st, p, 64), 64) if st.regs[p.r].size and st.regs[p.r].size >= p.o + 8 else fresh()
        except Exception: return fresh()
    def assign(e_, st, a, f, ins): e_.wr(st, a[0], 64, to_bv(e_.rd(st, a[1], 64), 64) if re.search(r'(operator=|assign)\(std::__cxx11', f['dem']) else fresh()); return a[0]
    def sret(e_, st, a, f, ins): e_.wr(st, a[0], 64, fresh()); return None
    M_('^(.*)?' + BS + r'(append|operator\+=|push_back|insert|replace|assign|operator=)', assign)
    M_('^' + BS + r'basic_string', ctor); M_('^' + BS + r'~basic_string\(', lambda *a: None); M_('^' + BS + r'operator std::basic_string_view', lambda e_, st, a, f, ins: [z3.BitVec(fresh_name('len'), 64), a[0]])
    M_(r'^std::__cxx11::basic_string<char.*> std::operator\+<', sret); M_(r'^std::__cxx11::to_string\(', sret); M_(r'^dots::(Connection::(peerDescription|endpointDescription)|to_string|type::PropertySet::toString)(\[abi:cxx11\])?\(', sret)
    M_(r'^dots::Connection::(peerDescription|endpointDescription)\[abi', sret)
SD = 'dots::type::StructDescriptor'
def statics(e, st):
    """one descriptor object per generated type; internal types are marked so in the models"""
    out = {}
    for k, f in e.m.funcs.items():
        x = re.match(r'^dots::type::StaticStruct<([^<>]*)>::_Descriptor\(\)', f['dem'])
        if x and x.group(1) not in out: out[x.group(1)] = st.alloc('descriptor of ' + x.group(1), size=e.m.clssize(SD), lazy=True, origin='pre')
    e.model(r'^dots::type::StaticStruct<[^<>]*>::_Descriptor\(\)', lambda e_, st_, a, f, ins: out[re.search(r'StaticStruct<(.*?)>::_Descriptor', f['dem']).group(1)], front=True); return out
class Host(Contract):
    sets = True
    def world(s, e, st):
        sm.install(e, vector_types=()); m = e.m; e.dyninit = r'::Metadata$'; e.ematch = True; static_props(e); no_log(e); tokens(e); s.SDS = statics(e, st)
        s.states = [to_bv(view(e, st, 'vh_state', [z3.BitVecVal(n, 32)])[0], 32) for n in range(5)]; s.CLOSED = s.states[4]
        s.H = st.alloc('host', size=m.clssize(HT), lazy=True, origin='pre'); s.C = st.alloc('connections', size=None, stride=8 * ((m.clssize(CO) + 7) // 8), length=None, origin='pre')
        s.o_state = m.field(CO, 'm_connectionState'); st.wregion(s.C.r).hook = s.conn_hook
        s.GN = st.alloc('group entries', size=None, stride=16, length=None, origin='pre'); st.wregion(s.GN.r).hook = lambda e_, st_, r, off, T: Ptr(s.C.r, to_bv(off[0], 64), 0) if off[1] == 8 else None
        s.CN = st.alloc('guest connections', size=None, stride=32, length=None, origin='pre'); st.wregion(s.CN.r).hook = lambda e_, st_, r, off, T: Ptr(s.C.r, to_bv(off[0], 64), 0) if off[1] in (8, 16) else None
        s.EX = st.alloc('exceptions', size=None, stride=64, length=None, origin='pre')
        s.GR = st.alloc('group', size=64, lazy=True, origin='pre')
        for n in ('member', 'alive', 'visited', 'served', 'failed', 'erred', 'held'): st.ghost['~' + n] = z3.Const(n, IDS)
        st.ghost['~state'] = z3.Const('state', ST8); st.ghost['log'] = ()
        for n in ('visited', 'served', 'failed', 'erred', 'held'): st.ghost['~' + n] = z3.K(BV64, z3.BoolVal(False))
        if s.sets: st.assume(all_(lambda j: z3.Implies(sel(G(st, 'member'), j), z3.And(sel(G(st, 'alive'), j), j != END)), lambda j: sel(G(st, 'member'), j)))
        s.hdr = st.alloc('header', size=m.clssize('dots::types::DotsHeader'), lazy=True, origin='pre'); s.inst = st.alloc('instance', size=None, lazy=True, origin='pre')
        f = lambda n: m.field('dots::io::Transmission::TransmissionData', n)
        s.data = st.alloc('transmission data', size=m.clssize('dots::io::Transmission::TransmissionData'), lazy=True, origin='pre'); st.wregion(s.data.r).cells[f('instance')] = (8, s.inst); s.fh, s.fi = f('header'), f('instance')
        s.T = st.alloc('transmission', size=8, origin='pre'); st.wregion(s.T.r).cells[0] = (8, s.data)
        hv = to_bv(e.rd(st, e.padd(st, s.data, s.fh + 8), 32), 32); st.assume(hv & 2 == 2)      # the header names the type
        for x in m.find(r'^dots::type::Struct::derivedPropertyArea\(') or []: e.contracts[x] = VD('Struct::derivedPropertyArea', lambda e_, st_, a: e_.padd(st_, a[0], 8))
        for x in m.find(r"Struct::_assertHasProperties<(true|false)>\(.*::'lambda'\(") or []: e.contracts[x] = VD('list of properties for a message', lambda e_, st_, a: e_.wr(st_, a[0], 64, z3.BitVec(fresh_name('string'), 64)))
        s.pool = st.alloc('pool', size=None, lazy=True, origin='pre'); e.model(r'^dots::Dispatcher::pool\(\)', lambda e_, st_, a, f, ins: s.pool, front=True)
        s.models(e, st)
    def is_(s, p, q, o=0): return isinstance(p, Ptr) and p.r == q.r and p.o == q.o + o
    def conn(s, e, st, p, what='memory-safety: the connection exists'):
        if not (isinstance(p, Ptr) and p.r == s.C.r and p.o == 0): raise Unsupported('unknown connection')
        k = to_bv(p.i, 64); e.prove(st, s.usable(st, k), what); return k
    def usable(s, st, k): return z3.Or(sel(G(st, 'alive'), k), sel(G(st, 'held'), k))
    def isopen(s, st, k): return sel(G(st, 'state'), k) != s.CLOSED
    def conn_hook(s, e, st, r, off, T):
        if off[1] == s.o_state: k = to_bv(off[0], 64); e.prove(st, s.usable(st, k), 'memory-safety: the connection exists'); v = sel(G(st, 'state'), k); st.assume(z3.ULE(v, 5)); return v
        return None
    def nxt(s, st):
        k = z3.BitVec(fresh_name('k'), 64); A, V = G(st, 'member'), G(st, 'visited')
        st.assume(z3.Or(z3.And(k == END, all_(lambda j: z3.Implies(sel(A, j), sel(V, j)), lambda j: sel(A, j))), z3.And(k != END, sel(A, k), z3.Not(sel(V, k)))))
        return Ptr(s.GN.r, k, 0)
    def key(s, e, st, p): e.prove(st, s.iskey(e, st, p), 'ensures the group of the type is used')
    def iskey(s, e, st, p):
        v, _ = view(e, st, 'vh_type_name', [s.thehdr(e, st)]); return isinstance(p, Ptr) and isinstance(v, Ptr) and p.r == v.r and p.o == v.o
    def thehdr(s, e, st): return e.padd(st, s.data, s.fh)
    def mine(s, e, st, p):
        if not s.is_(p, s.GR): raise Unsupported('unknown group')
    def models(s, e, st):
        M_ = lambda r, h: e.model(r, h, front=True)
        GS = r'std::unordered_set<dots::Connection\*,.*>::'; GM = r'std::unordered_map<std::__cxx11::basic_string<.*>, std::unordered_set<dots::Connection\*,.*>::'; CM = r'std::unordered_map<dots::Connection\*, std::shared_ptr<dots::Connection>,.*>::'
        def begin(e_, st, a, f, ins): s.mine(e_, st, a[0]); st.ghost['~visited'] = z3.K(BV64, z3.BoolVal(False)); return s.nxt(st)
        def end(e_, st, a, f, ins): s.mine(e_, st, a[0]); return Ptr(s.GN.r, END, 0)
        def inc(e_, st, a, f, ins):
            p = e_.rdp(st, a[0])
            if not (isinstance(p, Ptr) and p.r == s.GN.r): return s.other_inc(e_, st, a, f, ins)
            i = to_bv(p.i, 64); e_.prove(st, sel(G(st, 'member'), i), 'memory-safety: the group entry of the iteration still exists'); put_(st, 'visited', i); e_.wrp(st, a[0], s.nxt(st)); return a[0]
        def sub(e_, st, a, f, ins):
            if not s.is_(a[0], s.H, e.m.field(HT, 'm_groups')): raise Unsupported('unknown group map')
            s.key(e_, st, a[1]); return s.GR
        def cfind(e_, st, a, f, ins):
            if not s.is_(a[0], s.H, e.m.field(HT, 'm_guestConnections')): raise Unsupported('unknown connection map')
            p = e_.rdp(st, a[1]); k = to_bv(p.i, 64); return Ptr(s.CN.r, z3.If(sel(G(st, 'alive'), k), k, END), 0)
        # order matters: the more specific class first
        M_('^' + GS + r'c?begin\(', begin); M_('^' + GS + r'c?end\(', end); M_(r'^(.*)?' + GM + r'operator\[\]', sub)
        M_(r'^std::__detail::_Node_(const_)?iterator<.*>::operator\+\+\(\)', inc)
        M_('^' + CM + r'find\(', cfind); M_('^' + CM + r'end\(', lambda e_, st, a, f, ins: Ptr(s.CN.r, END, 0))
        M_(r'^std::current_exception\(\)$', lambda e_, st, a, f, ins: e_.wrp(st, a[0], st.caught[-1].obj if st.caught and st.caught[-1].obj is not None else NULL))
        def ecopy(e_, st, a, f, ins): e_.wrp(st, a[0], e_.rdp(st, a[1])); return None
        M_(r'^std::__exception_ptr::exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr (const&|&&)\)', ecopy); M_(r'^std::__exception_ptr::exception_ptr::~exception_ptr\(', lambda e_, st, a, f, ins: None)
        M_(r'^std::__exception_ptr::exception_ptr::operator=\(', lambda e_, st, a, f, ins: (ecopy(e_, st, a, f, ins), a[0])[1])
    def other_inc(s, e, st, a, f, ins): raise Unsupported('unknown iteration')
def excp(st, p): return p
class Transmit(Host):
    """every open member of the group is served exactly once; a failing one is closed and keeps nobody else from being served"""
    name = 'HostTransceiver::transmit'
    def __init__(s): super().__init__('vh_transmit')
    def setup(s, e, st):
        s.world(e, st); m = e.m; M_ = lambda r, h: e.model(r, h, front=True)
        st.ghost['~elem'] = z3.Const('elem', MAP); st.ghost['~pos'] = z3.Const('pos', MAP); st.ghost['~n'] = z3.BitVecVal(0, 64)
        s.m0, s.st0 = G(st, 'member'), G(st, 'state')
        def trans(e_, st_, a):
            k = s.conn(e_, st_, a[0]); e_.prove(st_, s.is_(a[1], s.T), 'ensures what is published is transmitted')
            e_.prove(st_, z3.And(sel(s.m0, k), s.isopen(st_, k)), 'ensures only open members are served'); e_.prove(st_, z3.Not(z3.Or(sel(G(st_, 'served'), k), sel(G(st_, 'failed'), k))), 'ensures a member is served at most once')
            t = st_.fork(); put_(t, 'failed', k); put_(st_, 'served', k); return Outs([('ret', st_, None), ('exc', t, Exc('_ZTISt13runtime_error', Ptr(s.EX.r, k, 0), tag='transmit'))])
        e.contracts[m.one(r'^dots::Connection::transmit\(dots::io::Transmission const&\)')] = VD('Connection::transmit', trans)
        def err(e_, st_, a):
            k = s.conn(e_, st_, a[0]); x = e_.rdp(st_, a[1]) if isinstance(a[1], Ptr) and a[1].r != s.EX.r else a[1]
            e_.prove(st_, z3.And(sel(G(st_, 'failed'), k), z3.Not(sel(G(st_, 'erred'), k)), s.isopen(st_, k)), 'ensures only failing connections are closed, once'); e_.prove(st_, isinstance(x, Ptr) and x.r == s.EX.r and to_bv(x.i, 64) == k, 'ensures the connection is closed with its own error')
            put_(st_, 'erred', k); s.closes(e_, st_, k); return None
        e.contracts[m.one(r'^dots::Connection::handleError\(')] = VD('Connection::handleError', err)
        V = r'std::vector<std::pair<(std::shared_ptr<dots::Connection>|dots::Connection\*), std::__exception_ptr::exception_ptr>.*>::'; s.D = None
        def vnew(e_, st_, a, f, ins):
            s.owning = 'shared_ptr' in f['dem'].split('>::vector')[0].split('exception_ptr')[0]; s.es = 24 if s.owning else 16; s.V = a[0]
            s.D = st_.alloc('failed connections', size=None, stride=s.es, length=None, origin='pre'); st_.wregion(s.D.r).hook = s.d_hook; return None
        def isv(p):
            if s.D is None or not s.is_(p, s.V): raise Unsupported('unknown list of connections')
        def push(e_, st_, a, f, ins):
            isv(a[0]); x = [e_.rdp(st_, p) for p in a[1:]]
            if len(x) != 2: raise Unsupported('emplace_back')
            k = s.conn(e_, st_, x[0]); n = G(st_, 'n'); st_.assume(z3.ULT(n, 2**40)); e_.prove(st_, isinstance(x[1], Ptr) and x[1].r == s.EX.r and to_bv(x[1].i, 64) == k, 'ensures the error of the connection is kept')
            setg(st_, 'elem', z3.Store(G(st_, 'elem'), n, k)); setg(st_, 'pos', z3.Store(G(st_, 'pos'), k, n)); setg(st_, 'n', n + 1)
            if s.owning: put_(st_, 'held', k)
            return Ptr(s.D.r, n, 0)
        def wrap(h):
            def go(e_, st_, a, f, ins): isv(a[0]); return h(st_)
            return go
        M_('^' + V + r'vector\(\)', vnew); M_('^' + V + r'~vector\(\)', lambda e_, st_, a, f, ins: None); M_('^(.*)?' + V + r'(emplace_back<|push_back\()', push); M_('^' + V + r'empty\(', wrap(lambda st_: z3.If(G(st_, 'n') == 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))); M_('^' + V + r'size\(', wrap(lambda st_: G(st_, 'n')))
        M_('^' + V + r'c?begin\(', wrap(lambda st_: Ptr(s.D.r, z3.BitVecVal(0, 64), 0))); M_('^' + V + r'c?end\(', wrap(lambda st_: Ptr(s.D.r, G(st_, 'n'), 0)))
        e.loop_specs.insert(0, (lambda e_, st_, fr, h: 'HostTransceiver::transmit' in e_.m.funcs[fr.fn]['dem'], LoopInv(s.cands, 'members and failed connections')))
        return [s.H, s.T]
    def d_hook(s, e, st, r, off, T):
        i = to_bv(off[0], 64); e.prove(st, z3.ULT(i, G(st, 'n')), 'memory-safety: access within the list of failed connections'); k = sel(G(st, 'elem'), i)
        return Ptr(s.C.r, k, 0) if off[1] == 0 else Ptr(s.EX.r, k, 0) if off[1] == s.es - 8 else None
    def closes(s, e, st, k):
        """handling an error closes the connection; removing its instances can make others fail, which closes them as well"""
        m, a, x = G(st, 'member'), G(st, 'alive'), G(st, 'state'); m2, a2, x2 = z3.Const(fresh_name('member'), IDS), z3.Const(fresh_name('alive'), IDS), z3.Const(fresh_name('state'), ST8)
        st.assume(all_(lambda j: z3.Implies(sel(m2, j), z3.And(sel(m, j), sel(a2, j), j != k)), lambda j: sel(m2, j))); st.assume(all_(lambda j: z3.Implies(sel(a2, j), z3.And(sel(a, j), j != k)), lambda j: sel(a2, j)))
        st.assume(all_(lambda j: z3.Or(sel(x2, j) == sel(x, j), sel(x2, j) == s.CLOSED), lambda j: sel(x2, j))); st.assume(sel(x2, k) == s.CLOSED)
        st.ghost['~member'], st.ghost['~alive'], st.ghost['~state'] = m2, a2, x2
    def exactly(s, st, upto=lambda j: z3.BoolVal(True)):
        S, F = G(st, 'served'), G(st, 'failed'); due = lambda j: z3.And(sel(s.m0, j), sel(s.st0, j) != s.CLOSED)
        return [('only open members have been served or failed', all_(lambda j: z3.Implies(z3.Or(sel(S, j), sel(F, j)), z3.And(due(j), upto(j), z3.Not(z3.And(sel(S, j), sel(F, j))))), lambda j: sel(S, j), lambda j: sel(F, j))),
                ('open members have been served or failed', all_(lambda j: z3.Implies(z3.And(due(j), upto(j)), z3.Or(sel(S, j), sel(F, j))), lambda j: sel(s.m0, j), lambda j: sel(S, j)))]
    def listed(s, st):
        F, E, P, n, Hd = (G(st, x) for x in ('failed', 'elem', 'pos', 'n', 'held'))
        return [('failed connections are listed', all_(lambda j: z3.Implies(sel(F, j), z3.And(z3.ULT(sel(P, j), n), sel(E, sel(P, j)) == j)), lambda j: sel(F, j))),
                ('only failed connections are listed, once', all_(lambda i: z3.Implies(z3.ULT(i, n), z3.And(sel(F, sel(E, i)), sel(P, sel(E, i)) == i)), lambda i: sel(E, i))),
                ('listed connections are kept alive', all_(lambda i: z3.Implies(z3.ULT(i, n), sel(Hd, sel(E, i))), lambda i: sel(E, i)))]
    def cands(s, e, st, fr, h, entry):
        out = []
        its = s.its(e, st, fr, h); l2 = [v for v in its if s.D is not None and v.r == s.D.r]
        for v in l2 or its:
            k = to_bv(v.i, 64)
            if k.eq(END) or (s.D is not None and v.r == s.D.r and k.eq(to_bv(entry.ghost['~n'], 64))): continue
            M, V = G(st, 'member'), G(st, 'visited')
            if v.r == s.GN.r:
                out += [('the iteration is at an unvisited member', z3.Or(k == END, z3.And(sel(M, k), z3.Not(sel(V, k))))), ('all are visited at the end', z3.Implies(k == END, all_(lambda j: z3.Implies(sel(M, j), sel(V, j)), lambda j: sel(M, j)))), ('visited are members', all_(lambda j: z3.Implies(sel(V, j), sel(M, j)), lambda j: sel(V, j)))]
                out += s.exactly(st, lambda j: sel(V, j)) + s.listed(st) + [('the group is unchanged', M == s.m0), ('connections stay as they are', G(st, 'state') == s.st0), ('nobody is closed', G(st, 'erred') == z3.K(BV64, z3.BoolVal(False))), ('connections exist', all_(lambda j: z3.Implies(sel(M, j), z3.And(sel(G(st, 'alive'), j), j != END)), lambda j: sel(M, j)))]
            elif s.D is not None and v.r == s.D.r:
                E, n, R = G(st, 'elem'), G(st, 'n'), G(st, 'erred')
                out += [('the list is unchanged', z3.And(*[G(st, x) == entry.ghost['~' + x] for x in ('n', 'elem', 'pos', 'held', 'failed', 'served')]))] + s.listed(st) + [('position within the list', z3.ULE(k, n)), ('handled connections are closed', all_(lambda i: z3.Implies(z3.ULT(i, k), sel(G(st, 'state'), sel(E, i)) == s.CLOSED), lambda i: sel(E, i))),
                    ('only failed connections before the position have been handled', all_(lambda j: z3.Implies(sel(R, j), z3.And(sel(G(st, 'failed'), j), z3.ULT(sel(G(st, 'pos'), j), k), sel(G(st, 'state'), j) == s.CLOSED)), lambda j: sel(R, j)))] + s.exactly(st)
        return out
    def its(s, e, st, fr, h):
        rs = {s.GN.r} | ({s.D.r} if s.D is not None else set()); got = []
        for ins in e.m.funcs[fr.fn]['blocks'][h]['i']:
            if ins['op'] != 'phi': break
            v = fr.loc.get(ins['id'])
            if isinstance(v, Ptr) and v.r in rs: got.append(v)
        for rid in fr.allocas:
            for o, (sz, v) in sorted(st.regs[rid].cells.items(), key=str) if rid in st.regs else []:
                if isinstance(v, Ptr) and v.r in rs and v.o == 0: got.append(v)
        return got
    def ensures(s, e, st0, st, a, r):
        return s.exactly(st) + [('failed connections are closed', all_(lambda j: z3.Implies(sel(G(st, 'failed'), j), sel(G(st, 'state'), j) == s.CLOSED), lambda j: sel(G(st, 'failed'), j)))]
T_ = 'dots::types::'
def props_of(e, st, p): return to_bv(e.rd(st, e.padd(st, p, 8), 32), 32)
def fld(e, st, p, cls, n, w): return to_bv(e.rd(st, e.padd(st, p, e.m.field(T_ + cls, n)), w), w)
class Ops(Host):
    """one operation of the host; what it sends and calls is recorded in order"""
    throws = True
    def setup(s, e, st):
        s.world(e, st); m = e.m; s.c = z3.BitVec('connection', 64); s.cp = Ptr(s.C.r, s.c, 0); st.assume(z3.And(sel(G(st, 'alive'), s.c), s.c != END)); s.x = st.alloc('message', size=m.clssize(T_ + s.msg) if s.msg else None, lazy=True, origin='pre')
        if s.msg: st.wregion(s.x.r).cells[0] = (8, s.SDS[T_ + s.msg])
        s.m0 = G(st, 'member'); s.FS = st.alloc('struct type', size=m.clssize(SD), lazy=True, origin='pre'); s.K = st.alloc('container', size=m.clssize('dots::Container<dots::type::Struct>'), lazy=True, origin='pre'); M_ = lambda r, h: e.model(r, h, front=True)
        def sent(kind):
            def h(e_, st_, a):
                s.conn(e_, st_, a[0]); r = s.recorded(e_, st_, kind, a); t = st_.fork(); t.ghost['log'] += (('failed',),); st_.ghost['log'] += (r,); return Outs([('ret', st_, None), ('exc', t, Exc('_ZTISt13runtime_error', t.alloc('error', size=64, lazy=True), tag='transmit'))])
            return h
        for k, rx in (('instance', r'^dots::Connection::transmit\(dots::type::Struct const&, std::optional'), ('headed', r'^dots::Connection::transmit\(dots::types::DotsHeader const&'), ('transmission', r'^dots::Connection::transmit\(dots::io::Transmission'), ('descriptor', r'^dots::Connection::transmit\(dots::type::StructDescriptor')):
            x = m.find(rx)
            if x and x[0] != s.fn: e.contracts[x[0]] = VD('Connection::transmit', sent(k))
        M_(r'^dots::type::Registry::findStructType\(', s.find_type); M_(r'^dots::ContainerPool::find\(dots::type::StructDescriptor const&\)', s.find_container); M_(r'^(std::)?logic_error::logic_error|^std::(logic|runtime)_error::(logic|runtime)_error\(', lambda *a: None)
        def erase(e_, st_, a, f, ins):
            s.mine(e_, st_, a[0]); p = e_.rdp(st_, a[1]); k = s.conn(e_, st_, p); had = sel(G(st_, 'member'), k); put_(st_, 'member', k, False); s.unjoin(e_, st_, k); return z3.If(had, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        def emplace(e_, st_, a, f, ins):
            s.mine(e_, st_, a[0]); p = e_.rdp(st_, a[1]) if a[1].r != s.C.r else a[1]; k = s.conn(e_, st_, p); had = sel(G(st_, 'member'), k); put_(st_, 'member', k); return [Ptr(s.GN.r, k, 0), z3.If(had, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))]
        GS = r'std::unordered_set<dots::Connection\*,.*>::'
        M_('^' + GS + r'erase\(dots::Connection\* const&', erase); M_('^(.*)?' + GS + r'(emplace<|insert\()', emplace)
        return s.args(e, st)
    msg = None
    def args(s, e, st): return [s.H, s.cp, s.x]
    def unjoin(s, e, st, k): pass
    def find_type(s, e, st, a, f, ins): raise Unsupported('lookup of a type')
    def find_container(s, e, st, a, f, ins): raise Unsupported('lookup of a container')
    def recorded(s, e, st, kind, a): return (kind,)
    def log(s, st): return [x for x in st.ghost['log']]
class Member(Ops):
    """joining adds the guest to the group and sends it the cached instances and the end mark, leaving removes it, anything else changes nothing"""
    name = 'HostTransceiver::handleMemberMessage'; msg = 'DotsMember'
    def __init__(s): super().__init__('vh_handle_member')
    def args(s, e, st):
        s.gname = e.padd(st, s.x, e.m.field(T_ + s.msg, 'groupName')); s.gval = to_bv(e.rd(st, s.gname, 64), 64); s.valid = props_of(e, st, s.x); s.ev = fld(e, st, s.x, s.msg, 'event', 32); st.ghost['type'] = None; st.ghost['container'] = None
        st.wregion(s.FS.r).cells[e.m.field(SD, 'm_flags')] = (1, z3.BitVec('flags', 8)); s.cached = view(e, st, 'vh_cached', [s.FS])[0]
        s.evs = [to_bv(view(e, st, 'vh_member_event', [z3.BitVecVal(n, 32)])[0], 32) for n in range(3)]
        e.contracts[e.m.one(r'^dots::HostTransceiver::transmitContainer\(')] = VD('transmitContainer', s.container)
        return super().args(e, st)
    def iskey(s, e, st, p): return s.is_(p, s.x, e.m.field(T_ + s.msg, 'groupName')) or s.gval.eq(z3.simplify(to_bv(e.rd(st, p, 64), 64)))
    def find_type(s, e, st, a, f, ins):
        sv = next(x for x in a[1:] if isinstance(x, Ptr)); e.prove(st, s.iskey(e, st, sv), 'ensures the type of the group is looked up'); t = st.fork(); t.ghost['type'] = False; st.ghost['type'] = True; return Outs([('ret', t, NULL), ('ret', st, s.FS)])
    def find_container(s, e, st, a, f, ins):
        e.prove(st, s.is_(a[1], s.FS), 'ensures the container of the type is used'); t = st.fork(); t.ghost['container'] = False; st.ghost['container'] = True; return Outs([('ret', t, NULL), ('ret', st, s.K)])
    def container(s, e, st, a):
        k = s.conn(e, st, a[1]); e.prove(st, k == s.c, 'ensures the joining guest is served'); e.prove(st, s.is_(a[2], s.K), 'ensures the instances of the type are sent'); t = st.fork(); t.ghost['log'] += (('failed',),); st.ghost['log'] += (('container',),)
        return Outs([('ret', st, None), ('exc', t, Exc('_ZTISt13runtime_error', t.alloc('error', size=64, lazy=True), tag='transmit'))])
    def recorded(s, e, st, kind, a):
        k = s.conn(e, st, a[0]); e.prove(st, k == s.c, 'ensures the joining guest is served'); d = e.rdp(st, a[1]); e.prove(st, kind == 'instance' and s.is_(d, s.SDS[T_ + 'DotsCacheInfo']), 'ensures the end of the cached instances is announced')
        v = props_of(e, st, a[1]); e.prove(st, z3.And(v == (1 << 1 | 1 << 3), z3.Extract(0, 0, fld(e, st, a[1], 'DotsCacheInfo', 'endTransmission', 8)) == 1, fld(e, st, a[1], 'DotsCacheInfo', 'typeName', 64) == s.gval), 'ensures the end mark names the type')
        return ('end',)
    def changed(s, e, st):
        join, leave = s.ev == s.evs[0], s.ev == s.evs[1]; M = G(st, 'member')
        return [('joining adds exactly the guest to the group, leaving removes exactly it', M == z3.If(join, z3.Store(s.m0, s.c, z3.BoolVal(True)), z3.If(leave, z3.Store(s.m0, s.c, z3.BoolVal(False)), s.m0)))]
    def sends(s, st): return st.ghost['type'] is True
    def ensures(s, e, st0, st, a, r):
        l = [x[0] for x in s.log(st)]; join = s.ev == s.evs[0]; g = st.ghost; full = (['container'] if g['container'] else []) + ['end']
        return [('only with a group and an event', s.valid & 6 == 6)] + s.changed(e, st) + [('a guest that joins a cached type gets the cached instances and the end mark', z3.Implies(z3.And(join, to_bool(s.cached), z3.BoolVal(g['type'] is not False)), z3.BoolVal(l == full and g['type'] is True))), ('nothing else is sent', z3.Implies(z3.BoolVal(l != []), z3.And(join, to_bool(s.cached), z3.BoolVal(g['type'] is True))))]
    def xensures(s, e, st0, st, a):
        l = [x[0] for x in s.log(st)]
        return [('only an incomplete message or a failing guest', z3.Or(z3.And(s.valid & 6 != 6, z3.BoolVal(l == []), G(st, 'member') == s.m0), z3.BoolVal(l[-1:] == ['failed']))), ('only the guest is added', all_(lambda j: z3.Implies(j != s.c, sel(G(st, 'member'), j) == sel(s.m0, j)), lambda j: sel(s.m0, j)))]
CI = 'DotsCloneInformation'
def counters(e, st, fr, h):
    """integers that a loop may change"""
    out = []
    for ins in e.m.funcs[fr.fn]['blocks'][h]['i']:
        if ins['op'] != 'phi': break
        v = fr.loc.get(ins['id'])
        if isinstance(v, z3.BitVecRef) and v.size() in (32, 64): out.append((f'variable {ins["id"]}', v))
    for rid in sorted(fr.allocas):
        if rid in st.regs and st.regs[rid].size in (4, 8):
            for o, (sz, v) in sorted(st.regs[rid].cells.items(), key=str):
                if isinstance(v, z3.BitVecRef) and v.size() in (32, 64): out.append((f'{st.regs[rid].name}+{o}', v))
    return out
class Sends(Ops):
    """the cached instances of a type are sent one by one: each exactly once, with its own time, sender and properties, counting down"""
    name = 'HostTransceiver::transmitContainer'; sets = False
    def __init__(s): super().__init__('vh_transmit_container')
    def args(s, e, st):
        m = e.m; s.n = z3.BitVec('elements', 64); st.assume(z3.ULT(s.n, 2**32)); st.ghost['~sent'] = z3.BitVecVal(0, 64); o = m.field
        s.E = st.alloc('elements', size=None, stride=4096, length=None, origin='pre'); s.I = st.alloc('instances', size=None, stride=4096, length=None, origin='pre'); A = lambda n, w: z3.Const(n, z3.ArraySort(BV64, bvw(w)))
        s.mask, s.mod, s.frm, s.meta = A('properties', 32), A('modified', 64), A('updated from', 32), A('information', 32); s.ci = 40
        om, of = o(T_ + CI, 'modified'), o(T_ + CI, 'lastUpdateFrom')
        def ehook(e_, st_, r, off, T):
            i = to_bv(off[0], 64); e_.prove(st_, z3.ULT(i, s.n), 'memory-safety: the element exists'); x = off[1]
            if x == 32: return Ptr(s.I.r, i, 0)
            for o_, w, v in ((om, 64, s.mod), (of, 32, s.frm), (8, 32, s.meta)):
                k = x - s.ci - o_
                if 0 <= k < w // 8: t = sel(v, i) | z3.BitVecVal(s.need, 32) if o_ == 8 else sel(v, i); return z3.Extract(8 * k + 7, 8 * k, t) if T.get('w') == 8 else t if k == 0 else None
            return None
        s.need = 1 << 2 | 1 << 5
        st.wregion(s.E.r).hook = ehook; st.wregion(s.I.r).hook = lambda e_, st_, r, off, T: sel(s.mask, to_bv(off[0], 64)) if off[1] == 8 else None
        M_ = lambda r, h: e.model(r, h, front=True); IT = r'std::_Rb_tree_(const_)?iterator<std::pair<dots::type::AnyStruct const, dots::types::DotsCloneInformation>>::'; K = r'^dots::Container<dots::type::Struct>::'
        def mine(p):
            if not s.is_(p, s.K): raise Unsupported('unknown container')
        def wr(h): return lambda e_, st_, a, f, ins: (mine(a[0]), h(e_, st_))[1]
        M_(K + r'size\(', wr(lambda e_, st_: s.n)); M_(K + r'empty\(', wr(lambda e_, st_: z3.If(s.n == 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))); M_(K + r'c?begin\(', wr(lambda e_, st_: Ptr(s.E.r, z3.BitVecVal(0, 64), 0))); M_(K + r'c?end\(', wr(lambda e_, st_: Ptr(s.E.r, s.n, 0))); M_(K + r'descriptor\(', wr(lambda e_, st_: s.FS))
        def inc(e_, st_, a, f, ins):
            p = e_.rdp(st_, a[0]); i = to_bv(p.i, 64)
            if p.r != s.E.r: raise Unsupported('unknown iteration')
            e_.prove(st_, z3.ULT(i, s.n), 'memory-safety: the element exists'); e_.wrp(st_, a[0], Ptr(s.E.r, i + 1, 0)); return a[0]
        M_('^' + IT + r'operator\+\+\(\)', inc); M_(r'^(dots::type::)?.*TimePoint.*::Now\(\)', lambda e_, st_, a, f, ins: z3.BitVec(fresh_name('now'), 64))
        s.name_, _ = view(e, st, 'vh_name', [s.FS]); s.nval = to_bv(e.rd(st, s.name_, 64), 64)
        e.loop_specs.insert(0, (lambda e_, st_, fr, h: 'HostTransceiver::transmitContainer' in e_.m.funcs[fr.fn]['dem'], LoopInv(s.cands, 'cached instances'))); return [s.H, s.cp, s.K]
    def recorded(s, e, st, kind, a):
        k = s.conn(e, st, a[0]); i = G(st, 'sent'); P = lambda c, n: e.prove(st, c, n); h = a[1]; f = lambda n, w: fld(e, st, h, 'DotsHeader', n, w); v = props_of(e, st, h); x = a[2]
        if kind != 'headed': raise Unsupported('transmission of ' + kind)
        P(k == s.c, 'ensures the joining guest is served'); P(z3.And(z3.ULT(i, s.n), isinstance(x, Ptr) and x.r == s.I.r and to_bv(x.i, 64) == i), 'ensures every instance is sent once, in order'); t = lambda n: 1 << s.tags[n]
        P(v == sum(t(n) for n in ('typeName', 'sentTime', 'serverSentTime', 'attributes', 'sender', 'fromCache', 'removeObj')), 'ensures the header has exactly the fields of a cached instance')
        P(f('typeName', 64) == s.nval, 'ensures the header names the type'); P(f('fromCache', 32) == z3.Extract(31, 0, s.n - 1 - i), 'ensures the number of instances left is sent'); P(z3.Extract(0, 0, f('removeObj', 8)) == 0, 'ensures the instance is not removed')
        P(f('sentTime', 64) == sel(s.mod, i), 'ensures the time of the last update is sent'); P(f('attributes', 32) == sel(s.mask, i), 'ensures all valid properties are sent'); P(f('sender', 32) == sel(s.frm, i), 'ensures the last sender is named')
        setg(st, 'sent', i + 1); return ('instance',)
    @property
    def tags(s): return TAGS
    def cands(s, e, st, fr, h, entry):
        its = [v for rid in fr.allocas if rid in st.regs for o, (sz, v) in sorted(st.regs[rid].cells.items(), key=str) if isinstance(v, Ptr) and v.r == s.E.r and v.o == 0 and not to_bv(v.i, 64).eq(s.n)]; out = []
        for ins in e.m.funcs[fr.fn]['blocks'][h]['i']:
            if ins['op'] != 'phi': break
            v = fr.loc.get(ins['id'])
            if isinstance(v, Ptr) and v.r == s.E.r and not to_bv(v.i, 64).eq(s.n): its.append(v)
        out += [('nothing else changes: ' + n, G(st, n) == entry.ghost['~' + n]) for n in ('member', 'alive', 'state', 'held')]
        for n, v in counters(e, st, fr, h):
            w = lambda x: z3.Extract(v.size() - 1, 0, x); i = G(st, 'sent'); out += [(f'? {n} counts up', v == w(i)), (f'? {n} counts down', v == w(s.n - i))]
        for v in its[:1]:
            k = to_bv(v.i, 64); out += [('the instances before the position have been sent', G(st, 'sent') == k), ('the position is within the container', z3.ULE(k, s.n))]
        for rid in fr.allocas:
            if rid in st.regs and st.regs[rid].size == e.m.clssize(T_ + 'DotsHeader'):
                p = Ptr(rid, None, 0) if False else e.padd(st, Ptr(rid, 0, 0), 0); t = lambda n: 1 << s.tags[n]; base = t('typeName') | t('fromCache') | t('removeObj'); full = base | t('sentTime') | t('serverSentTime') | t('attributes') | t('sender'); v = props_of(e, st, p); f = lambda n, w: fld(e, st, p, 'DotsHeader', n, w); i = G(st, 'sent')
                out += [('the header has the constant fields', v & base == base), ('the header has no other fields', v & ~z3.BitVecVal(full, 32) == 0), ('the header is complete', z3.Implies(i != 0, v == full)), ('the header names the type', f('typeName', 64) == s.nval), ('the header counts down', f('fromCache', 32) == z3.Extract(31, 0, s.n - i)), ('the header is no removal', z3.Extract(0, 0, f('removeObj', 8)) == 0), ('boolean', f('removeObj', 8) == 0)]
        return out
    def ensures(s, e, st0, st, a, r): return [('all cached instances are sent', G(st, 'sent') == s.n)]
    def xensures(s, e, st0, st, a): return [('only a failing guest', z3.BoolVal(st.ghost['log'][-1:] == (('failed',),)))]
def hdr_at(e, st, t):
    """header and instance of a transmission"""
    D = 'dots::io::Transmission::TransmissionData'; d = e.rdp(st, t); return e.padd(st, d, e.m.field(D, 'header')), e.rdp(st, e.padd(st, d, e.m.field(D, 'instance')))
class Publish(Ops):
    """what is published goes to the local handlers and then to the guests, once, as one transmission with the header of the host"""
    name = 'HostTransceiver::publish'; sets = False
    def __init__(s): super().__init__('vh_publish')
    def args(s, e, st):
        m = e.m; M_ = lambda r, h: e.model(r, h, front=True); st.wregion(s.x.r).cells[0] = (8, s.FS); s.copy = st.alloc('copy of the instance', size=None, lazy=True, origin='pre')
        st.wregion(s.FS.r).cells.update({m.field(SD, 'm_flags'): (1, z3.BitVec('flags', 8)), m.field(SD, 'm_properties'): (4, z3.BitVec('properties of the type', 32)), m.field(SD, 'm_keyProperties'): (4, z3.BitVec('key properties', 32))})
        s.keys, s.props = (to_bv(view(e, st, f, [s.x])[0], 32) for f in ('vh_keys', 'vh_props')); s.valid = props_of(e, st, s.x); s.sub = to_bool(view(e, st, 'vh_substruct', [s.FS])[0]); s.name_, _ = view(e, st, 'vh_name', [s.FS]); s.nval = to_bv(e.rd(st, s.name_, 64), 64)
        st.assume(z3.And(s.keys & ~s.props == 0, s.valid & ~s.props == 0)); s.has, s.inc, s.rem = z3.BitVec('included given', 8), z3.BitVec('included', 32), z3.BitVec('remove', 8); st.assume(z3.ULE(s.has, 1)); st.assume(z3.ULE(s.rem, 1))
        def any_(e_, st_, a): e_.prove(st_, s.is_(a[1], s.x), 'ensures the published instance is transmitted'); e_.wrp(st_, a[0], s.copy); return None
        for f in m.find(r'^dots::type::AnyStruct::AnyStruct\(dots::type::Struct const&\)') or []: e.contracts[f] = VD('AnyStruct', any_)
        M_(r'^dots::type::AnyStruct::AnyStruct\(dots::type::Struct const&\)', lambda e_, st_, a, f, ins: any_(e_, st_, a)); M_(r'::Now\(\)$', lambda e_, st_, a, f, ins: z3.BitVec(fresh_name('now'), 64))
        for f in m.find(r'^dots::type::AnyStruct::~AnyStruct\(\)') or []: e.contracts[f] = VD('~AnyStruct', lambda *a: None)
        s.hooks(e, st); return [s.H, s.x, s.has == 1, s.inc, s.rem == 1]
    def hooks(s, e, st):
        def step(what):
            def h(e_, st_, t):
                st_.ghost['log'] += (what,); s.check(e_, st_, t, what); x = st_.fork(); x.ghost['log'] += (('failed',),); s.others(e_, st_); s.others(e_, x); return Outs([('ret', st_, None), ('exc', x, Exc('_ZTISt13runtime_error', x.alloc('error', size=64, lazy=True), tag=what))])
            return h
        d, t = step('dispatch'), step('transmit'); e.model(r'^dots::Dispatcher::dispatch\(dots::io::Transmission const&\)', lambda e_, st_, a, f, ins: d(e_, st_, a[1]), front=True)
        e.contracts[e.m.one(r'^dots::HostTransceiver::transmit\(dots::io::Transmission const&\)')] = VD('HostTransceiver::transmit', lambda e_, st_, a: t(e_, st_, a[1]))
    def others(s, e, st): pass
    def check(s, e, st, t, what):
        h, x = hdr_at(e, st, t); P = lambda c, n: e.prove(st, c, f'{n} ({what})'); f = lambda n, w: fld(e, st, h, 'DotsHeader', n, w); b = lambda n: z3.Extract(0, 0, f(n, 8)); T = lambda n: 1 << TAGS[n]
        P(s.is_(x, s.copy), 'ensures the published instance is sent'); P(props_of(e, st, h) == sum(T(n) for n in ('typeName', 'sentTime', 'serverSentTime', 'attributes', 'sender', 'removeObj', 'isFromMyself')), 'ensures the header has exactly the fields of a transmission of the host')
        P(f('typeName', 64) == s.nval, 'ensures the header names the type'); P(f('sender', 32) == 1, 'ensures the host is the sender'); P(b('removeObj') == z3.Extract(0, 0, s.rem), 'ensures the kind of operation is sent'); P(b('isFromMyself') == 1, 'ensures the local handlers see their own transmission')
        P(f('attributes', 32) == z3.If(s.has == 1, (s.inc | s.keys) & s.props, s.valid), 'ensures the header lists the included and key properties of the type')
    def ensures(s, e, st0, st, a, r): return [('dispatched, then transmitted, once', z3.BoolVal(st.ghost['log'] == ('dispatch', 'transmit'))), ('only complete instances of types that may be published', z3.And(z3.Not(s.sub), s.keys & ~s.valid == 0))]
    def xensures(s, e, st0, st, a):
        l = st.ghost['log']; return [('only a refused instance or a failing handler', z3.Or(z3.BoolVal(l in (('dispatch', ('failed',)), ('dispatch', 'transmit', ('failed',)))), z3.And(z3.BoolVal(l == ()), z3.Or(s.sub, s.keys & ~s.valid != 0))))]
TAGS = dict(typeName=1, sentTime=2, serverSentTime=7, attributes=3, sender=5, fromCache=8, removeObj=4, isFromMyself=6)
KINDS = {'DotsMember': 'member', 'DotsDescriptorRequest': 'descriptor request', 'DotsClearCache': 'clear', 'DotsEcho': 'echo', 'DotsHeader': None, '': None}
class Route(Publish):
    """a message is handled by what it asks for; everything but requests goes to the local handlers and then to the guests, unchanged"""
    def __init__(s, kind): Contract.__init__(s, 'vh_handle_transmission'); s.kind = kind; s.name = f'HostTransceiver::handleTransmission ({kind or "type of the user"})'
    def args(s, e, st):
        m = e.m; st.wregion(s.T.r).cells[0] = (8, s.data); d = s.SDS[T_ + s.kind] if s.kind else s.FS; s.d = d; o = m.field(SD, 'm_flags'); fl = z3.BitVec('flags', 8); st.wregion(d.r).cells[o] = (1, fl); inner = to_bool(view(e, st, 'vh_internal', [d])[0]); st.assume(inner if s.kind else z3.Not(inner))
        st.wregion(s.inst.r).cells[0] = (8, d); s.h0 = [to_bv(e.rd(st, e.padd(st, s.data, s.fh + 8 + 4 * k), 32), 32) for k in range((m.clssize('dots::types::DotsHeader') - 8) // 4)]
        for f, what in (('handleMemberMessage', 'member'), ('handleDescriptorRequest', 'descriptor request'), ('handleClearCache', 'clear'), ('handleEchoRequest', 'echo')):
            e.contracts[m.one(rf'^dots::HostTransceiver::{f}\(')] = VD(f, s.op(what))
        for f in m.find(r'^dots::type::AnyStruct::~AnyStruct\(\)') or []: e.contracts[f] = VD('~AnyStruct', lambda *a: None)
        s.hooks(e, st)
        def hold(e_, st_, a, f, ins):
            p = e_.rdp(st_, a[1])
            if isinstance(p, Ptr) and p.r == s.C.r: put_(st_, 'held', to_bv(p.i, 64)); e_.wrp(st_, a[0], p)
            return None
        e.model(r'^std::(__)?shared_ptr<dots::Connection.*>::(__)?shared_ptr\((std::(__)?shared_ptr<dots::Connection.*> )?const&\)', hold, front=True); e.model(r'^std::(__)?shared_ptr<dots::Connection.*>::~(__)?shared_ptr\(', lambda *a: None, front=True)
        return [s.H, s.cp, s.T]
    def op(s, what):
        def h(e, st, a):
            k = s.conn(e, st, a[1]); e.prove(st, k == s.c, 'ensures the request of the guest is handled'); e.prove(st, s.is_(a[2], s.inst), 'ensures the request itself is handled'); st.ghost['log'] += (what,); x = st.fork(); x.ghost['log'] += (('failed',),); s.others(e, st); s.others(e, x)
            return Outs([('ret', st, None), ('exc', x, Exc('_ZTISt13runtime_error', x.alloc('error', size=64, lazy=True), tag=what))])
        return h
    def others(s, e, st):
        """anything can happen to the connections meanwhile, what is held stays"""
        for n, srt in (('state', ST8), ('member', IDS), ('alive', IDS)): st.ghost['~' + n] = z3.Const(fresh_name(n), srt)
    def check(s, e, st, t, what):
        h, x = hdr_at(e, st, t); P = lambda c, n: e.prove(st, c, f'{n} ({what})')
        P(s.is_(x, s.inst), 'ensures the received instance is passed on'); P(z3.And(*[to_bv(e.rd(st, e.padd(st, h, 8 + 4 * k), 32), 32) == v for k, v in enumerate(s.h0)]), 'ensures the header is passed on unchanged')
    def ensures(s, e, st0, st, a, r):
        k = KINDS[s.kind]; want = ('dispatch', 'transmit') if k is None else ('clear', 'dispatch', 'transmit') if k == 'clear' else (k,)
        return [('the message is handled and passed on as it should', z3.BoolVal(st.ghost['log'] == want)), ('receiving goes on unless the connection was closed', to_bool(r) == s.isopen(st, s.c))]
    def xensures(s, e, st0, st, a): return [('only if handling it fails', z3.BoolVal(st.ghost['log'][-1:] == (('failed',),)))]
class Echo(Ops):
    """an echo request is answered with the same content, marked as an answer, to the guest that asked; an answer is not answered"""
    name = 'HostTransceiver::handleEchoRequest'; msg = 'DotsEcho'; sets = False
    def __init__(s): super().__init__('vh_handle_echo')
    W = (('identifier', 32), ('sequenceNumber', 32), ('data', 64))
    def args(s, e, st): s.valid = props_of(e, st, s.x); st.assume(s.valid & ~z3.BitVecVal(0x1e, 32) == 0); s.req = z3.And(s.valid & 2 == 2, z3.Extract(0, 0, fld(e, st, s.x, s.msg, 'request', 8)) == 1); s.f0 = [fld(e, st, s.x, s.msg, n, w) for n, w in s.W]; b = fld(e, st, s.x, s.msg, 'request', 8); st.assume(z3.ULE(b, 1)); return [s.H, s.cp, s.x]
    def recorded(s, e, st, kind, a):
        k = s.conn(e, st, a[0]); P = lambda c, n: e.prove(st, c, n); x = a[1]; d = e.rdp(st, x); v = props_of(e, st, x); P(k == s.c, 'ensures the guest that asked is answered'); P(kind == 'instance' and s.is_(d, s.SDS[T_ + 'DotsEcho']) and not s.is_(x, s.x), 'ensures an echo is sent')
        P(z3.And(v == s.valid, z3.Extract(0, 0, fld(e, st, x, s.msg, 'request', 8)) == 0), 'ensures the answer is marked as such'); P(z3.And(*[z3.Implies(s.valid & (1 << t) != 0, fld(e, st, x, s.msg, n, w) == o) for t, (n, w), o in zip((2, 3, 4), s.W, s.f0)]), 'ensures the content is returned'); return ('answer',)
    def ensures(s, e, st0, st, a, r): return [('a request is answered once, an answer is not', z3.If(s.req, z3.BoolVal(st.ghost['log'] == (('answer',),)), z3.BoolVal(st.ghost['log'] == ()))), ('the request is unchanged', props_of(e, st, s.x) == s.valid)]
    def xensures(s, e, st0, st, a): return [('only a failing guest', z3.And(s.req, z3.BoolVal(st.ghost['log'] == (('failed',),))))]
def contracts(): return [Transmit(), Member(), Sends(), Publish(), Echo()] + [Route(k) for k in KINDS]
