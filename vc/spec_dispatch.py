"""Contracts of Dispatcher: which handlers are called for a dispatch, whatever the handlers do to the dispatcher meanwhile.
The handler maps (std::map from id to handler) are abstract finite maps; a handler call is arbitrary code that only uses the
dispatcher through its operations, so it is assumed to keep exactly what these operations are proved to keep (GUARANTEE)."""
import itertools
import z3
from .contract import *
from .spec_container import static_props, VD
from . import stdmodels as sm
DI = 'dots::Dispatcher'; IDS = z3.ArraySort(BV64, z3.BoolSort()); END = z3.BitVecVal(2**64 - 1, 64)
_n = itertools.count()
def sel(a, j): return z3.Select(a, j)
def all_(f, *pats):
    j = z3.BitVec(f'j!d{next(_n)}', 64); p = [x(j) for x in pats]
    return z3.ForAll([j], f(j), patterns=p) if p else z3.ForAll([j], f(j))
def DF(e, n): return e.m.field(DI, n)
G = lambda st, n: st.ghost['~' + n]
def setg(st, n, v): c = z3.Const(fresh_name(n), IDS); st.assume(c == v); st.ghost['~' + n] = c
def guarantee(a, b):
    """what every operation of the dispatcher (and so every handler) leaves intact; a, b: (alive, pend, stack, next)"""
    A, P, S, N = a; A2, P2, S2, N2 = b
    return [('ids are not reused', z3.And(z3.ULE(N, N2), N2 != END)),
            ('only new handlers are added', all_(lambda j: z3.Implies(sel(A2, j), z3.Or(sel(A, j), z3.UGE(j, N))), lambda j: sel(A2, j))),
            ('handlers in use are not destroyed', all_(lambda j: z3.Implies(z3.And(sel(A, j), sel(S, j)), sel(A2, j)), lambda j: sel(A, j), lambda j: sel(A2, j))),
            ('removed handlers stay removed', all_(lambda j: z3.Implies(z3.And(sel(P, j), sel(A2, j)), z3.Or(sel(P2, j), z3.UGE(j, N))), lambda j: sel(P, j), lambda j: sel(P2, j))),
            ('the dispatching handlers are the same', S == S2),
            ('ids are below the next id', all_(lambda j: z3.Implies(sel(A2, j), z3.ULT(j, N2)), lambda j: sel(A2, j)))]
def callees(m, f, rx):
    seen, todo, out = set(), [f], []
    while todo:
        F = todo.pop()
        for b in F.get('blocks') or []:
            for i in b['i']:
                c = i.get('callee') if i['op'] in ('call', 'invoke') else None
                if c and c[0] == 'f' and c[1] not in seen:
                    seen.add(c[1]); g = m.funcs.get(c[1])
                    if g is None: continue
                    if re.search(rx, g['dem']): out.append(c[1])
                    else: todo.append(g)
    return out
class Disp(Contract):
    ev = False       # transmission or event handlers
    known = True     # the type has handlers
    def world(s, e, st):
        sm.install(e, vector_types=()); m = e.m; e.dyninit = r'::Metadata$'; e.ematch = True
        s.D = st.alloc('dispatcher', size=m.clssize(DI), lazy=True, origin='pre'); s.SD = st.alloc('descriptor', size=m.clssize('dots::type::StructDescriptor'), lazy=True, origin='pre')
        s.TH, s.EH = (Ptr(st.alloc(n + ' handlers', size=64, lazy=True, origin='pre').r, 0, 16) for n in ('transmission', 'event')); s.H = s.EH if s.ev else s.TH
        s.N = st.alloc('handler', size=None, stride=128, length=None, origin='pre')
        s.pnode = {x.r: Ptr(x.r, 0, 0) for x in (s.TH, s.EH)}; s.pend_ = st.alloc('pool end', size=0, origin='pre')
        for n, srt in (('alive', IDS), ('pend', IDS), ('stack', IDS), ('called', IDS)): st.ghost['~' + n] = z3.Const(n, srt)
        st.ghost['pushed'] = (); st.ghost['raised'] = None; st.ghost['log'] = (); st.ghost['next_id'] = None
        st.wregion(s.D.r).cells[DF(e, 'm_nextId')] = (8, z3.BitVec('next_id', 64)); st.wregion(s.D.r).cells[DF(e, 'm_clearingHandlers')] = (1, 0)
        s.g0 = s.abs(e, st)
        for n, c in guarantee(s.g0, s.g0): st.assume(c)
        st.assume(all_(lambda j: z3.Implies(sel(G(st, 'pend'), j), z3.ULT(j, s.g0[3])), lambda j: sel(G(st, 'pend'), j)))
        st.assume(z3.ULT(s.g0[3], z3.BitVecVal(2**63, 64)))           # ids do not wrap around
        st.assume(all_(lambda j: z3.Not(sel(G(st, 'called'), j)), lambda j: sel(G(st, 'called'), j)))
        st.wregion(s.N.r).hook = s.node_hook
        s.models(e)
    def abs(s, e, st): return (G(st, 'alive'), G(st, 'pend'), G(st, 'stack'), to_bv(e.rd(st, e.padd(st, s.D, DF(e, 'm_nextId')), 64), 64))
    def node_hook(s, e, st, r, off, T):
        i = to_bv(off[0], 64); e.prove(st, sel(G(st, 'alive'), i), 'memory-safety: the handler still exists')
        if off[1] == 32: return i
        return None
    def rely(s, e, st):
        """arbitrary use of the dispatcher by a handler"""
        a = s.abs(e, st)
        for n in ('alive', 'pend'): st.ghost['~' + n] = z3.Const(fresh_name(n), IDS)
        e.wr(st, e.padd(st, s.D, DF(e, 'm_nextId')), 64, z3.BitVec(fresh_name('next'), 64))
        for n, c in guarantee(a, s.abs(e, st)): st.assume(c)
        st.assume(all_(lambda j: z3.Implies(sel(G(st, 'pend'), j), z3.ULT(j, s.abs(e, st)[3])), lambda j: sel(G(st, 'pend'), j)))
    def raised(s, e, st): e.prove(st, st.ghost['raised'] is None, 'ensures an exception of a handler is passed to the error handler')
    def is_(s, p, q, o=0): return isinstance(p, Ptr) and p.r == q.r and p.o == q.o + o
    def isdisp(s, e, p, f): return isinstance(p, Ptr) and p.r == s.D.r and p.o == DF(e, f)
    def models(s, e):
        M_ = lambda r, h: e.model(r, h, front=True); is_map = lambda p: s.is_(p, s.TH) or s.is_(p, s.EH)
        HD = r'std::map<unsigned long, dots::tools::Handler<.*>, std::greater<void>,.*>::'; IT = r'std::_Rb_tree_(const_)?iterator<std::pair<unsigned long const, dots::tools::Handler<.*>>>::'
        PO = r'std::unordered_map<dots::type::StructDescriptor const\*, std::map<unsigned long, dots::tools::Handler<.*>::'
        def mine(st, p): e.prove(st, s.is_(p, s.H), 'the handlers of the given kind and type are used')
        def nxt(st, below):
            k = z3.BitVec(fresh_name('k'), 64); A = G(st, 'alive'); lt = (lambda j: z3.ULT(j, below)) if below is not None else (lambda j: j != END)
            st.assume(z3.Or(z3.And(k == END, all_(lambda j: z3.Implies(lt(j), z3.Not(sel(A, j))), lambda j: sel(A, j))), z3.And(sel(A, k), lt(k), k != END, all_(lambda j: z3.Implies(z3.And(sel(A, j), lt(j)), z3.ULE(j, k)), lambda j: sel(A, j)))))
            return Ptr(s.N.r, k, 0)
        def begin(e_, st, a, f, ins): mine(st, a[0]); return nxt(st, None)
        def end(e_, st, a, f, ins): mine(st, a[0]); return Ptr(s.N.r, END, 0)
        def inc(e_, st, a, f, ins):
            p = e_.rdp(st, a[0]); i = to_bv(p.i, 64); e_.prove(st, sel(G(st, 'alive'), i), 'memory-safety: the handler of the iteration still exists'); q = nxt(st, i); e_.wrp(st, a[0], q)
            return a[0]
        def inc_post(e_, st, a, f, ins): p = e_.rdp(st, a[0]); inc(e_, st, a, f, ins); return p
        def find(e_, st, a, f, ins): mine(st, a[0]); k = to_bv(e_.rd(st, a[1], 64), 64); return Ptr(s.N.r, z3.If(sel(G(st, 'alive'), k), k, END), 0)
        def count(e_, st, a, f, ins): mine(st, a[0]); k = to_bv(e_.rd(st, a[1], 64), 64); return z3.If(sel(G(st, 'alive'), k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        def take(st, k, what): e.prove(st, z3.Implies(sel(G(st, 'alive'), k), z3.Not(sel(G(st, 'stack'), k))), f'ensures a handler in use is not {what}'); setg(st, 'alive', z3.Store(G(st, 'alive'), k, z3.BoolVal(False)))
        def erase(e_, st, a, f, ins):
            mine(st, a[0])
            if isinstance(a[1], Ptr) and a[1].r == s.N.r: k = to_bv(a[1].i, 64); e_.prove(st, sel(G(st, 'alive'), k), 'memory-safety: an existing handler is erased'); one = None
            else: k = to_bv(e_.rd(st, a[1], 64), 64); one = z3.If(sel(G(st, 'alive'), k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            s.erased(e_, st, k); take(st, k, 'destroyed'); s.rely(e_, st)          # the destructor of a handler may use the dispatcher
            return one if one is not None else nxt(st, k)
        def extract(e_, st, a, f, ins):
            out, mp, p = a; mine(st, mp); k = to_bv(p.i if isinstance(p, Ptr) and p.r == s.N.r else e_.rd(st, p, 64), 64); s.erased(e_, st, k); take(st, k, 'extracted'); return None
        def emplace(e_, st, a, f, ins):
            mine(st, a[0]); k = to_bv(e_.rd(st, a[1], 64), 64); e_.prove(st, z3.Not(sel(G(st, 'alive'), k)), 'ensures the id of a new handler is not in use')
            setg(st, 'alive', z3.Store(G(st, 'alive'), k, z3.BoolVal(True))); s.emplaced(e_, st, k, a[2]); st.ghost['log'] += (('added', k),); return [Ptr(s.N.r, k, 0), z3.BitVecVal(1, 8)]
        def pool(p): return s.TH if s.isdisp(e, p, 'm_transmissionHandlerPool') else s.EH if s.isdisp(e, p, 'm_eventHandlerPool') else None
        def key(st, p):
            d = p if s.is_(p, s.SD) else e.rdp(st, p); e.prove(st, s.is_(d, s.SD), 'the handlers of the given type are used')
        def pfind(e_, st, a, f, ins):
            x = pool(a[0]); key(st, a[1])
            if x is None: raise Unsupported('unknown handler pool')
            return s.pnode[x.r] if s.known else s.pend_
        def pderef(e_, st, a, f, ins):
            p = e_.rdp(st, a[0])
            return p
        def psub(e_, st, a, f, ins):
            x = pool(a[0]); key(st, a[1])
            if x is None: raise Unsupported('unknown handler pool')
            return x
        M_('^' + HD + r'c?begin\(', begin); M_('^' + HD + r'c?end\(', end); M_('^' + IT + r'operator\+\+\(\)', inc); M_('^' + IT + r'operator\+\+\(int\)', inc_post)
        M_('^' + HD + r'find\(', find); M_('^' + HD + r'(count|contains)\(', count); M_('^(.*)?' + HD + r'erase(\[abi:cxx11\])?\(', erase); M_('^(.*)?' + HD + r'extract\(', extract); M_('^.*' + HD + r'(emplace|try_emplace|insert_or_assign)<', emplace)
        M_('^' + PO + r'find\(', pfind); M_('^' + PO + r'end\(', lambda e_, st, a, f, ins: s.pend_); M_('^(.*)?' + PO + r'operator\[\]', psub)
        M_(r'^std::__detail::_Node_(const_)?iterator<.*std::map<unsigned long, dots::tools::Handler<.*>::operator(\*|->)\(', lambda e_, st, a, f, ins: s.PV(e_, st, e_.rdp(st, a[0])))
        # the id vectors are sets
        V = r'std::vector<unsigned long, std::allocator<unsigned long>>::'
        def vset(p): return 'stack' if s.isdisp(e, p, 'm_dispatchingIds') else 'pend' if s.isdisp(e, p, 'm_removeIds') else None
        def need(p):
            n = vset(p)
            if n is None: raise Unsupported('unknown id list')
            return n
        def vbeg(e_, st, a, f, ins): return Ptr(s.vr[need(a[0])].r, 0, 0)
        def vend(e_, st, a, f, ins): return Ptr(s.vr[need(a[0])].r, 2, 0)
        s.vr = None
        def rng(p, q):
            for n, r in s.vr.items():
                if isinstance(p, Ptr) and p.r == r.r and isinstance(q, Ptr) and q.r == r.r and p.i == 0 and q.i == 2: return n
            raise Unsupported('range of an id list')
        def vfind(e_, st, a, f, ins): n = rng(a[0], a[1]); k = to_bv(e_.rd(st, a[2], 64), 64); return Ptr(s.vr[n].r, z3.If(sel(G(st, n), k), z3.BitVecVal(1, 64), z3.BitVecVal(2, 64)), 0)
        def vcount(e_, st, a, f, ins): n = rng(a[0], a[1]); k = to_bv(e_.rd(st, a[2], 64), 64); c = z3.BitVec(fresh_name('count'), 64); st.assume((c == 0) == z3.Not(sel(G(st, n), k))); st.assume(c >= 0); return c
        def vpush(e_, st, a, f, ins):
            n = need(a[0]); k = to_bv(e_.rd(st, a[1], 64), 64)
            if n == 'stack': st.ghost['pushed'] += (G(st, n),)
            else: s.erased(e_, st, k)
            setg(st, n, z3.Store(G(st, n), k, z3.BoolVal(True))); return Ptr(s.vr[n].r, 1, 0)
        def vpop(e_, st, a, f, ins):
            n = need(a[0])
            if n != 'stack' or not st.ghost['pushed']: raise Unsupported('pop of an id list')
            st.ghost['~stack'] = st.ghost['pushed'][-1]; st.ghost['pushed'] = st.ghost['pushed'][:-1]; return None
        def vclear(e_, st, a, f, ins):
            n = need(a[0])
            for j in [z3.BitVec(fresh_name('j'), 64)]: st.ghost['~' + n] = z3.K(BV64, z3.BoolVal(False))
            return None
        def verase(e_, st, a, f, ins): return Ptr(a[0].r, 0, 0) if False else vend(e_, st, a, f, ins) if need(a[0]) else None
        def remove_if(e_, st, a, f, ins):
            n = rng(a[0], a[1])
            if n != 'pend': raise Unsupported('remove_if')
            lam = callees(e_.m, f, r'^(?!.*^(bool )?__gnu_cxx::).*operator\(\)\((unsigned long|unsigned long const&)\) const$')
            if len(lam) != 1: raise Unsupported('predicate of remove_if')
            t = st.fork(); x = z3.BitVec(fresh_name('x'), 64); A0 = z3.Const(fresh_name('alive'), IDS); t.ghost['~alive'] = A0
            t.assume(all_(lambda j: z3.Implies(sel(A0, j), sel(G(st, 'alive'), j)), lambda j: sel(A0, j))); t.assume(sel(G(st, 'pend'), x)); t.frames = []; t.done = None
            clo = a[2] if isinstance(a[2], Ptr) else None
            if clo is None: clo = t.alloc('closure', size=24, origin='stack'); [e_.wrp(t, e_.padd(t, clo, 8 * i), v) for i, v in enumerate(a[2:])]
            for y in e_.run(t, lam[0], [clo, x]):
                if y.done[0] != 'ret': e_.prove(y, False, 'ensures the removal of handlers does not throw'); continue
                r = to_bool(y.done[1]); A1 = G(y, 'alive')
                e_.prove(y, z3.And(G(y, 'pend') == G(st, 'pend'), A1 == z3.If(r, z3.Store(A0, x, z3.BoolVal(False)), A0), z3.Implies(r, z3.And(sel(A0, x), z3.Not(sel(G(st, 'stack'), x)))), z3.Implies(z3.Not(r), z3.Or(z3.Not(sel(A0, x)), sel(G(st, 'stack'), x)))), 'ensures exactly the removed handlers that are not in use are taken out')
            A, P, S = G(st, 'alive'), G(st, 'pend'), G(st, 'stack'); A2, P2 = z3.Const(fresh_name('alive'), IDS), z3.Const(fresh_name('pend'), IDS)
            st.assume(all_(lambda j: sel(A2, j) == z3.And(sel(A, j), z3.Not(z3.And(sel(P, j), z3.Not(sel(S, j))))), lambda j: sel(A2, j), lambda j: sel(A, j)))
            st.assume(all_(lambda j: z3.And(z3.Implies(sel(P2, j), sel(P, j)), z3.Implies(z3.And(sel(P, j), sel(A2, j)), sel(P2, j))), lambda j: sel(P2, j), lambda j: sel(P, j)))
            st.ghost['~alive'], st.ghost['~pend'] = A2, P2; return a[1]
        M_('^' + V + r'c?begin\(', vbeg); M_('^' + V + r'c?end\(', vend); M_(r'^.*std::(find|__find_if|ranges::find)<.*unsigned long.*vector<unsigned long', vfind); M_(r'^.*std::count<.*vector<unsigned long', vcount)
        M_('^(.*)?' + V + r'(emplace_back<|push_back\()', vpush); M_('^' + V + r'pop_back\(', vpop); M_('^' + V + r'clear\(', vclear); M_('^(.*)?' + V + r'erase\(', verase); M_(r'^.*std::remove_if<.*vector<unsigned long', remove_if)
        NH = r'std::_Node_handle<unsigned long, .*dots::tools::Handler<'
        M_(r'^' + NH + r'.*>::(~?_Node_handle|operator=)\(', lambda e_, st, a, f, ins: None)
        def nh(e_, st, a, f, ins):
            if '::~vector' in f['dem'] or '::clear' in f['dem']: s.clean(e_, st); st.ghost['cleaned'] = True; s.rely(e_, st)      # destroys the handlers
            elif re.search(r'::(emplace_back|push_back)', f['dem']): return s.SD
            return None
        M_(r'^(.*)?std::vector<' + NH + r'.*>>::(~?vector|emplace_back|push_back|clear|reserve)[<(]', nh)
        # calls of handlers and of the error handler
        def call(e_, st, a, f, ins):
            p = a[0]; outs = []
            if isinstance(p, Ptr) and p.r == s.N.r:
                k = to_bv(p.i, 64)
                if hasattr(s, 'replayed'): e_.prove(st, sel(G(st, 'alive'), k), 'memory-safety: an existing handler is called'); return s.replayed(e_, st, k, a[1])
                s.raised(e_, st); e_.prove(st, sel(G(st, 'alive'), k), 'memory-safety: an existing handler is called')
                e_.prove(st, z3.Not(sel(G(st, 'pend'), k)), 'ensures a removed handler is not called'); e_.prove(st, z3.Not(sel(G(st, 'called'), k)), 'ensures a handler is called at most once')
                e_.prove(st, sel(G(st, 'stack'), k), 'ensures a handler is marked as dispatching while it runs')
                s.payload(e_, st, a[1]); setg(st, 'called', z3.Store(G(st, 'called'), k, z3.BoolVal(True))); s.rely(e_, st)
                t = st.fork(); t.ghost['raised'] = Exc('_ZTIi', t.alloc('exception', size=64, lazy=True), tag='handler'); outs.append(('exc', t, t.ghost['raised']))
            elif isinstance(p, Ptr) and p.r == s.D.r and DF(e_, 'm_errorHandler') <= p.o < DF(e_, 'm_errorHandler') + 32:
                e_.prove(st, st.ghost['raised'] is not None and any(c is st.ghost['raised'] for c in st.caught), 'ensures the error handler is only called with the exception of a handler'); st.ghost['raised'] = None
                e_.prove(st, s.is_(a[1], s.SD), 'ensures the error handler is called with the type'); s.rely(e_, st); t = st.fork(); outs.append(('exc', t, Exc('_ZTIi', t.alloc('exception', size=64, lazy=True), tag='error handler')))
            else: return s.other_call(e_, st, a, f, ins)
            return Outs(outs + [('ret', st, None)])
        M_(r'^std::function<void \(.*\)>::operator\(\)\(', call)
        M_(r'^std::current_exception\(\)$', lambda e_, st, a, f, ins: e_.wrp(st, a[0], st.caught[-1].obj if st.caught and st.caught[-1].obj is not None else NULL))
        M_(r'^std::__exception_ptr::exception_ptr::(~?exception_ptr)\(', lambda e_, st, a, f, ins: None)
    def clean(s, e, st): pass
    def PV(s, e, st, p): return e.padd(st, p, 8)
    def erased(s, e, st, k): pass
    def emplaced(s, e, st, k, p): pass
    def other_call(s, e, st, a, f, ins): raise Unsupported('call of an unknown handler')
    def payload(s, e, st, p): pass
    def guar(s, e, st): return guarantee(s.g0, s.abs(e, st))
    def xensures(s, e, st0, st, a): return s.guar(e, st)

class ToHandlers(Disp):
    """dispatchToHandlers: every handler is called exactly once unless it is removed; exceptions reach the error handler"""
    throws = True       # only what the error handler throws
    def __init__(s, w, ev): super().__init__(w); s.ev = ev; s.name = 'Dispatcher::dispatchToHandlers ' + ('(events)' if ev else '(transmissions)')
    def setup(s, e, st):
        s.world(e, st); s.vr = {n: st.alloc(n + ' ids', stride=8, length=2, origin='pre') for n in ('stack', 'pend')}
        s.X = st.alloc('transmission or event', size=None, lazy=True, origin='pre')
        inv = LoopInv(s.cands, 'handlers'); e.loop_specs.insert(0, (lambda e_, st_, fr, h: 'dispatchToHandlers' in e_.m.funcs[fr.fn]['dem'], inv))
        return [s.D, s.SD, s.H, s.X]
    def xensures(s, e, st0, st, a): return [('the exception of a handler does not escape', z3.BoolVal(st.ghost['raised'] is None))] + s.guar(e, st)
    def payload(s, e, st, p): e.prove(st, s.is_(p, s.X), 'ensures the handler is called with what is dispatched')
    def other_call(s, e, st, a, f, ins): raise Unsupported('call of an unknown handler')
    def done(s, st, k): return lambda j: z3.Or(k == END, z3.UGT(j, k))
    def facts(s, e, st, k):
        A0, P0, S0, N0 = s.g0; A, P, S, N = s.abs(e, st); C = G(st, 'called'); done = s.done(st, k)
        return [('registered handlers that were not removed have been called', all_(lambda j: z3.Implies(z3.And(sel(A0, j), sel(A, j), z3.Not(sel(P, j)), done(j)), sel(C, j)), lambda j: sel(A, j), lambda j: sel(C, j))),
                ('only registered handlers have been called', all_(lambda j: z3.Implies(sel(C, j), z3.And(sel(A0, j), z3.Not(sel(P0, j)), done(j))), lambda j: sel(C, j)))] + s.guar(e, st)
    def cands(s, e, st, fr, h, entry):
        out = []
        for i in s.its(e, st, fr, h):
            k = to_bv(i.i, 64); out += [('the current handler exists', z3.Or(k == END, z3.And(sel(G(st, 'alive'), k), z3.ULT(k, s.g0[3]))))] + s.facts(e, st, k)
            out += [('only ids that were given out are marked', all_(lambda j: z3.Implies(sel(G(st, 'pend'), j), z3.ULT(j, s.abs(e, st)[3])), lambda j: sel(G(st, 'pend'), j)))]
        return out
    def its(s, e, st, fr, h):
        for ins in e.m.funcs[fr.fn]['blocks'][h]['i']:
            if ins['op'] != 'phi': break
            v = fr.loc.get(ins['id'])
            if isinstance(v, Ptr) and v.r == s.N.r: return [v]
        for rid in fr.allocas:
            for o, (sz, v) in sorted(st.regs[rid].cells.items(), key=str) if rid in st.regs else []:
                if isinstance(v, Ptr) and v.r == s.N.r and v.o == 0 and not (z3.is_bv_value(to_bv(v.i, 64))): return [v]
        return []
    def ensures(s, e, st0, st, a, r):
        s.raised(e, st)
        if not st.ghost.get('cleaned'): s.clean(e, st)
        return s.facts(e, st, END)
    def clean(s, e, st):
        A, P, S, N = s.abs(e, st); e.prove(st, all_(lambda j: z3.Implies(z3.And(sel(P, j), sel(A, j)), sel(S, j)), lambda j: sel(P, j)), 'ensures removed handlers that are not in use are taken out')
def contracts():
    return [ToHandlers('vh_to_transmission_handlers', False), ToHandlers('vh_to_event_handlers', True)]
# ---- operations ------------------------------------------------------------------------------------------------------------
def view_bool(e, st, fn, args): return to_bool(view(e, st, e.m.one(fn), args)[0])
class Op_(Disp):
    """one operation of the dispatcher; handlers are called through dispatchToHandlers, used by its contract"""
    throws = True
    def __init__(s, w, name, ev=False, known=True): super().__init__(w); s.name = 'Dispatcher::' + name; s.ev = ev; s.known = known
    def setup(s, e, st):
        s.world(e, st); m = e.m; static_props(e); s.vr = {n: st.alloc(n + ' ids', stride=8, length=2, origin='pre') for n in ('stack', 'pend')}
        s.clr = z3.BitVec('clearing', 8); st.assume(z3.ULE(s.clr, 1)); st.wregion(s.D.r).cells[DF(e, 'm_clearingHandlers')] = (1, s.clr); s.clearing = s.clr == 1
        s.users0 = z3.BitVec('users', 64); st.assume(z3.ULT(s.users0, END - 8)); st.wregion(s.D.r).cells[DF(e, 'm_removedInstancesUsers')] = (8, s.users0)
        s.inst = st.alloc('instance', size=None, lazy=True, origin='pre'); st.wregion(s.inst.r).cells[0] = (8, s.SD)
        s.any = st.alloc('AnyStruct', size=8, origin='pre'); st.wregion(s.any.r).cells[0] = (8, s.inst)
        s.hdr = st.alloc('header', size=m.clssize('dots::types::DotsHeader'), lazy=True, origin='pre'); s.calls(e, st)
        return s.args(e, st)
    def calls(s, e, st):
        def to_handlers(ev):
            def f(e_, st, a):
                d, sd, h, x = a; e_.prove(st, s.is_(d, s.D) and s.is_(sd, s.SD) and s.is_(h, s.EH if ev else s.TH), 'ensures the handlers of the type are called')
                st.ghost['log'] += (('events' if ev else 'transmissions', s.event(e_, st, x) if ev else x),); s.rely(e_, st)
                t = st.fork(); t.ghost['log'] += (('error',),)
                return Outs([('ret', st, None), ('exc', t, Exc('_ZTIi', t.alloc('exception', size=64, lazy=True), tag='error handler'))])
            return f
        for k, f in e.m.funcs.items():
            if re.match(r'^void dots::Dispatcher::dispatchToHandlers<', f['dem']) and 'lambda' not in f['dem'] and "::operator()" not in f['dem']: e.contracts[k] = VD('dispatchToHandlers', to_handlers('dots::Event<' in f['dem']))
    def event(s, e, st, x): return None
    def user_log(s, st): return [x for x in st.ghost['log'] if x[0] != 'error']
class RemoveHandler(Op_):
    """exactly the given handler is removed: at once, or after its current call; unknown handlers are an error"""
    def args(s, e, st): s.id = z3.BitVec('id', 64); st.ghost['gone'] = (); return [s.D, s.SD, s.id]
    def erased(s, e, st, k): e.prove(st, k == s.id, 'ensures only the given handler is removed'); st.ghost['gone'] += (k,)
    def was(s): A, P, S, N = s.g0; return z3.And(z3.BoolVal(s.known), sel(A, s.id))
    def ensures(s, e, st0, st, a, r):
        A, P, S, N = s.g0; A2, P2, S2, N2 = s.abs(e, st); gone = bool(st.ghost['gone'])
        return [('the handler is known', z3.Or(s.clearing, s.was())), ('the handler is removed', z3.Or(s.clearing, z3.BoolVal(gone), z3.And(sel(S, s.id), sel(P, s.id)))),
                ('it is not called any more', z3.Or(s.clearing, z3.Not(sel(A2, s.id)), sel(P2, s.id))), ('it is not destroyed while it is in use', z3.Implies(z3.And(sel(A, s.id), sel(S, s.id)), sel(A2, s.id)))] + s.guar(e, st)
    def xensures(s, e, st0, st, a): return [('the handler is unknown', z3.And(z3.Not(s.clearing), z3.Not(s.was()))), ('nothing is removed', z3.BoolVal(not st.ghost['gone']))] + s.guar(e, st)
class AddTransmission(Op_):
    throws = False
    def args(s, e, st):
        s.fn_ = st.alloc('given handler', size=32, origin='pre'); w = st.wregion(s.fn_.r); s.body = [z3.BitVec('capture0', 64), z3.BitVec('capture1', 64)]
        s.mgr, s.inv = st.alloc('manager', size=0, origin='pre'), st.alloc('invoker', size=0, origin='pre')
        w.cells[0] = (8, s.body[0]); w.cells[8] = (8, s.body[1]); w.cells[16] = (8, s.mgr); w.cells[24] = (8, s.inv); 
        e.model(r'^std::_Function_base::~_Function_base\(', lambda *x: None, front=True)
        return [s.D, s.SD, s.fn_]
    def emplaced(s, e, st, k, p):
        ok = s.is_(e.rdp(st, e.padd(st, p, 16)), s.mgr) and s.is_(e.rdp(st, e.padd(st, p, 24)), s.inv)
        e.prove(st, z3.And(z3.BoolVal(bool(ok)), *[to_bv(e.rd(st, e.padd(st, p, 8 * i), 64), 64) == s.body[i] for i in (0, 1)]), 'ensures the given handler is registered')
    def ensures(s, e, st0, st, a, r):
        A, P, S, N = s.g0; log = [x for x in st.ghost['log'] if x[0] == 'added']; one = len(log) == 1
        return [('returns the next id', to_bv(r, 64) == N), ('ids are unique', z3.ULT(N, s.abs(e, st)[3])), ('the handler is registered once under this id', z3.Or(s.clearing, z3.And(z3.BoolVal(one), log[0][1] == N) if one else z3.BoolVal(False))), ('nothing is registered while handlers are cleared', z3.Implies(s.clearing, z3.BoolVal(not log)))] + s.guar(e, st)
class DispatchTransmission(Op_):
    def args(s, e, st):
        f = lambda n: e.m.field('dots::io::Transmission::TransmissionData', n)
        s.data = st.alloc('transmission data', size=e.m.clssize('dots::io::Transmission::TransmissionData'), lazy=True, origin='pre'); st.wregion(s.data.r).cells[f('instance')] = (8, s.inst)
        s.T = st.alloc('transmission', size=8, origin='pre'); st.wregion(s.T.r).cells[0] = (8, s.data); return [s.D, s.T]
    def ok(s, e, st): l = s.user_log(st); return l == [] if not s.known else len(l) == 1 and l[0][0] == 'transmissions' and s.is_(l[0][1], s.T)
    def ensures(s, e, st0, st, a, r): return [('the handlers of the type are called once, with the transmission' if s.known else 'no handler is called', z3.BoolVal(s.ok(e, st)))] + s.guar(e, st)
    def xensures(s, e, st0, st, a): return [('only the error handler throws', z3.BoolVal(s.known and s.ok(e, st) and st.ghost['log'][-1] == ('error',)))] + s.guar(e, st)
NH_ = r'std::_Node_handle<dots::type::AnyStruct,.*>::'
class DispatchEvent(Op_):
    """what is dispatched for cached and uncached types, with and without removal"""
    def __init__(s, cached, removes): super().__init__('vh_dispatch_event', f"dispatchEvent ({'cached' if cached else 'uncached'} type, {'removal' if removes else 'update'})", ev=True); s.cached, s.removes = cached, removes; s.never_returns = removes and not cached
    def args(s, e, st):
        m = e.m; CI = 'dots::types::DotsCloneInformation'; cs = m.clssize(CI); st.ghost['node'] = 'in'
        e.rd(st, e.padd(st, s.SD, m.field('dots::type::StructDescriptor', 'm_flags')), 8)
        st.assume(view_bool(e, st, r'^dots::type::StructDescriptor::cached\(\) const$', [s.SD]) == z3.BoolVal(s.cached))
        hv = to_bv(e.rd(st, e.padd(st, s.hdr, 8), 32), 32); rm = to_bv(e.rd(st, e.padd(st, s.hdr, m.field('dots::types::DotsHeader', 'removeObj')), 8), 8); st.assume(z3.ULE(rm, 1))
        st.assume(z3.And(z3.Extract(s.tag, s.tag, hv) == 1, rm == 1) == z3.BoolVal(s.removes))
        s.cont = st.alloc('container', size=m.clssize('dots::Container<dots::type::Struct>'), lazy=True, origin='pre')
        s.el = st.alloc('element', size=8 + cs, lazy=True, origin='pre'); s.U = st.alloc('updated instance', size=None, lazy=True, origin='pre'); st.wregion(s.U.r).cells[0] = (8, s.SD); st.wregion(s.el.r).cells[0] = (8, s.U)
        s.op = z3.BitVec('last_operation', 32); st.wregion(s.el.r).cells[16] = (4, z3.BitVec('clone_properties', 32) | 2); st.wregion(s.el.r).cells[8 + m.field(CI, 'lastOperation')] = (4, s.op); s.CI = CI
        def get(e_, st_, a, f, ins): e_.prove(st_, s.isdisp(e_, a[0], 'm_containerPool') and s.is_(a[1], s.SD) and (len(a) < 3 or e_.must(st_, to_bool(a[2]))), 'ensures the container of the type is used'); return s.cont
        def op(kind):
            def h(e_, st_, a, f, ins):
                out = a[0] if kind == 'remove' else None; c, hd, i = a[-3:]; e_.prove(st_, s.is_(c, s.cont) and s.is_(hd, s.hdr) and s.is_(i, s.inst), f'ensures the instance is {kind}d with its header')
                t = st_.fork(); t.ghost['log'] += (('container error',),); outs = [('exc', t, Exc('_ZTIi', t.alloc('exception', size=64, lazy=True), tag='container'))]
                st_.ghost['log'] += ((kind,),)
                if kind == 'inserte': return Outs(outs + [('ret', st_, s.el)])
                u = st_.fork(); s.seth(e_, u, out, NULL); u.ghost['node'] = 'none'; outs.append(('ret', u, None)); s.seth(e_, st_, out, s.el); st_.ghost['node'] = 'held'
                return Outs(outs + [('ret', st_, None)])
            return h
        M_ = lambda r, h: e.model(r, h, front=True)
        M_(r'^dots::ContainerPool::get\(dots::type::StructDescriptor const&', get); M_(r'^dots::Container<dots::type::Struct>::insert\(', op('inserte')); M_(r'^dots::Container<dots::type::Struct>::remove\(', op('remove'))
        def drop(e_, st_, a, f, ins):
            if s.is_(e_.rdp(st_, a[0]), s.el): st_.ghost['node'] = 'destroyed'
            return None
        def move(e_, st_, a, f, ins): s.seth(e_, st_, a[0], e_.rdp(st_, a[1])); s.seth(e_, st_, a[1], NULL); return a[0]
        def assign(e_, st_, a, f, ins): drop(e_, st_, a, f, ins); return move(e_, st_, a, f, ins)
        M_('^' + NH_ + r'~_Node_handle\(', drop); M_('^' + NH_ + r'_Node_handle\(std::_Node_handle<.*&&\)', move); M_('^' + NH_ + r'operator=\(', assign)
        V = r'std::vector<std::_Node_handle<dots::type::AnyStruct,.*>::'
        def push(e_, st_, a, f, ins):
            if not s.isdisp(e_, a[0], 'm_removedInstances'): raise Unsupported('unknown list of instances')
            if s.is_(e_.rdp(st_, a[1]), s.el): st_.ghost['node'] = 'kept'
            s.seth(e_, st_, a[1], NULL); t = st_.alloc('kept instance', size=24, lazy=True, origin='heap'); return t
        def clear(e_, st_, a, f, ins):
            if s.isdisp(e_, a[0], 'm_removedInstances') and st_.ghost['node'] == 'kept': st_.ghost['node'] = 'destroyed'
            return None
        M_('^(.*)?' + V + r'(emplace_back|push_back)[<(]', push); M_('^' + V + r'clear\(', clear)
        M_(r'TimePointImpl<.*>::Now\(\)$', lambda e_, st_, a, f, ins: z3.fpBVToFP(z3.BitVec(fresh_name('now'), 64), z3.Float64()) if e_.m.types[ins['t']]['k'] not in ('int', 'struct') else z3.BitVec(fresh_name('now'), 64))
        M_(r'^dots::type::StaticStruct<dots::types::DotsCloneInformation>::_Descriptor\(\)', lambda e_, st_, a, f, ins: st_.alloc('clone information type', size=None, lazy=True, origin='pre'))
        M_(r'^std::__cxx11::basic_string<char.*> std::operator\+<', sm.opaque_string); M_(r'^std::__cxx11::basic_string<.*>::(~?basic_string)(<.*>)?\(', lambda e_, st_, a, f_, ins: None)
        return [s.D, s.hdr, s.any]
    tag = 4
    def seth(s, e, st, p, n):
        full = isinstance(n, Ptr) and s.is_(n, s.el)
        for o, v in ((0, n), (8, n), (16, e.padd(st, n, 8) if full else NULL)): e.wrp(st, e.padd(st, p, o), v)
    def event(s, e, st, x):
        E = 'dots::Event<dots::type::Struct>'; p = [e.rdp(st, e.padd(st, x, e.m.field(E, n))) for n in ('m_header', 'm_transmitted', 'm_updated', 'm_cloneInfo')]; mt = to_bv(e.rd(st, e.padd(st, x, e.m.field(E, 'm_mt')), 32), 32)
        e.prove(st, s.is_(p[0], s.hdr), 'ensures the event has the header'); e.prove(st, s.is_(p[1], s.inst), 'ensures the event has the transmitted instance')
        if s.cached:
            e.prove(st, s.is_(p[2], s.U), 'ensures the event has the updated instance of the container'); e.prove(st, s.is_(p[3], s.el, 8), 'ensures the event has the clone information of the container')
            e.prove(st, mt == s.op, 'ensures the event has the operation of the container'); e.prove(st, st.ghost['node'] != 'destroyed', 'memory-safety: the removed instance exists during the event')
        else:
            e.prove(st, s.is_(p[2], s.inst), 'ensures the updated instance of an event is the transmitted one'); e.prove(st, mt == 0, 'ensures the event is a create event')
            f = lambda n: e.m.field(s.CI, n); h = lambda n: e.m.field('dots::types::DotsHeader', n); cv = to_bv(e.rd(st, e.padd(st, p[3], 8), 32), 32); hv = to_bv(e.rd(st, e.padd(st, s.hdr, 8), 32), 32); B = lambda v, t: z3.Extract(t, t, v) == 1
            R = lambda p_, o, w: to_bv(e.rd(st, e.padd(st, p_, o), w), w)
            e.prove(st, z3.And(B(cv, 1), R(p[3], f('lastOperation'), 32) == 0), 'ensures the clone information of the event: create'); e.prove(st, z3.And(B(cv, 3) == B(hv, 2), z3.Implies(B(hv, 2), R(p[3], f('created'), 64) == R(s.hdr, h('sentTime'), 64))), 'ensures the clone information of the event: created at the sent time')
            e.prove(st, z3.And(B(cv, 4) == B(hv, 5), z3.Implies(B(hv, 5), R(p[3], f('createdFrom'), 32) == R(s.hdr, h('sender'), 32))), 'ensures the clone information of the event: created from the sender')
        return True
    def kept(s, e, st):
        c = st.ghost['node']
        return [('an instance that was removed by a nested dispatch is kept', z3.Or(s.users0 == 0, z3.BoolVal(c in ('in', 'none', 'kept')))), ('instances in the container are not destroyed', z3.BoolVal(s.removes or c == 'in')), ('users are counted', to_bv(e.rd(st, e.padd(st, s.D, DF(e, 'm_removedInstancesUsers')), 64), 64) == s.users0)]
    def ensures(s, e, st0, st, a, r):
        l = [x[0] for x in s.user_log(st)]; gone = st.ghost['node'] == 'none'
        want = (['remove'] if gone else ['remove', 'events']) if s.cached and s.removes else ['inserte', 'events'] if s.cached else None if s.removes else ['events']
        return [('container and handlers are called as required, once each: ' + str(want), z3.BoolVal(l == want))] + s.kept(e, st) + s.guar(e, st)
    def xensures(s, e, st0, st, a):
        l = [x[0] for x in st.ghost['log']]
        return [('only the container or the error handler throw, or an uncached instance is removed', z3.BoolVal((l[-1:] == ['error']) or l == ['container error'] or (not s.cached and s.removes and l == [])))] + s.kept(e, st) + s.guar(e, st)
class Dispatch(Op_):
    """transmission handlers are served before the container and event handlers"""
    def args(s, e, st):
        f = lambda n: e.m.field('dots::io::Transmission::TransmissionData', n)
        s.data = st.alloc('transmission data', size=e.m.clssize('dots::io::Transmission::TransmissionData'), lazy=True, origin='pre'); st.wregion(s.data.r).cells[f('instance')] = (8, s.inst); s.fh, s.fi = f('header'), f('instance')
        s.T = st.alloc('transmission', size=8, origin='pre'); st.wregion(s.T.r).cells[0] = (8, s.data)
        def rec(kind, chk):
            def h(e_, st_, a):
                e_.prove(st_, s.is_(a[0], s.D) and chk(a), f'ensures {kind} are dispatched for the transmission'); st_.ghost['log'] += ((kind,),); s.rely(e_, st_)
                t = st_.fork(); t.ghost['log'] += (('error',),); return Outs([('ret', st_, None), ('exc', t, Exc('_ZTIi', t.alloc('exception', size=64, lazy=True), tag=kind))])
            return h
        e.contracts[e.m.one(r'^dots::Dispatcher::dispatchTransmission\(')] = VD('dispatchTransmission', rec('transmissions', lambda a: s.is_(a[1], s.T)))
        e.contracts[e.m.one(r'^dots::Dispatcher::dispatchEvent\(')] = VD('dispatchEvent', rec('events', lambda a: s.is_(a[1], s.data, s.fh) and s.is_(a[2], s.data, s.fi)))
        return [s.D, s.T]
    def ensures(s, e, st0, st, a, r): return [('transmission handlers first, then events', z3.BoolVal([x[0] for x in st.ghost['log']] == ['transmissions', 'events']))]
    def xensures(s, e, st0, st, a): return [('only the error handler or the container throw', z3.BoolVal(st.ghost['log'][-1:] == (('error',),)))]
_c0 = contracts
def contracts():
    return _c0() + [RemoveHandler(f'vh_remove_{k}_handler', f'removeHandler ({k}s, {"known" if kn else "unknown"} type)', ev=k == 'event', known=kn) for k in ('transmission', 'event') for kn in (True, False)] + \
        [AddTransmission('vh_add_transmission_handler', 'addTransmissionHandler')] + [DispatchTransmission('vh_dispatch_transmission', f'dispatchTransmission ({"known" if kn else "unknown"} type)', known=kn) for kn in (True, False)] + \
        [DispatchEvent(c, r) for c in (True, False) for r in (True, False)] + [Dispatch('vh_dispatch', 'dispatch')]
class AddEvent(AddTransmission):
    """the new handler gets one create event per cached instance (unless it is removed meanwhile), numbered down to zero"""
    throws = True
    def args(s, e, st):
        a = super().args(e, st); m = e.m; s.CI = 'dots::types::DotsCloneInformation'; st.assume(z3.Not(s.clearing))
        s.n = z3.BitVec('n_instances', 64); st.assume(z3.ULT(s.n, 2**31)); s.E = st.alloc('instances', size=None, lazy=True, origin='pre', stride=8 * ((40 + m.clssize(s.CI) + 7) // 8), length=None)
        s.S = st.alloc('structs', size=None, stride=64, length=None, origin='pre'); st.wregion(s.E.r).hook = s.el_hook; s.VALID = z3.Array('valid_properties', BV64, bvw(32))
        st.ghost['~present'] = z3.Const('present', IDS); st.ghost['~served'] = z3.Const('served', IDS); st.assume(all_(lambda j: z3.Not(sel(G(st, 'served'), j)), lambda j: sel(G(st, 'served'), j))); st.ghost['~count'] = z3.BitVecVal(0, 64)
        st.assume(all_(lambda j: z3.Implies(z3.ULT(j, s.n), sel(G(st, 'present'), j)), lambda j: sel(G(st, 'present'), j)))
        s.cont = st.alloc('container', size=m.clssize('dots::Container<dots::type::Struct>'), lazy=True, origin='pre'); s.mi = m.field('dots::Container<dots::type::Struct>', 'm_instances')
        s.L = st.alloc('list of instances', size=None, stride=8, length=None, origin='pre'); st.wregion(s.L.r).hook = lambda e_, st_, r, off, T: Ptr(s.E.r, to_bv(off[0], 64), 32) if off[1] == 0 else None
        M_ = lambda r, h: e.model(r, h, front=True); MP = r'(std::map<dots::type::AnyStruct, dots::types::DotsCloneInformation,.*>|dots::Container<dots::type::Struct>)::'
        def isc(st_, p): e.prove(st_, s.is_(p, s.cont, s.mi) or s.is_(p, s.cont), 'ensures the instances of the type are replayed')
        def q(v):
            def h(e_, st_, a_, f, ins): isc(st_, a_[0]); return v(st_)
            return h
        def get(e_, st_, a_, f, ins): e_.prove(st_, s.isdisp(e_, a_[0], 'm_containerPool') and s.is_(a_[1], s.SD), 'ensures the container of the type is used'); return s.cont
        M_(r'^dots::ContainerPool::get\(dots::type::StructDescriptor const&', get); M_('^' + MP + r'c?begin\(', q(lambda st_: Ptr(s.E.r, z3.BitVecVal(0, 64), 0))); M_('^' + MP + r'c?end\(', q(lambda st_: Ptr(s.E.r, s.n, 0)))
        M_('^' + MP + r'size\(', q(lambda st_: s.n)); M_('^' + MP + r'empty\(', q(lambda st_: z3.If(s.n == 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
        def inc(e_, st_, a_, f, ins): p = e_.rdp(st_, a_[0]); e_.wrp(st_, a_[0], Ptr(p.r, to_bv(p.i, 64) + 1, p.o)); return a_[0]
        M_(r'^std::_Rb_tree_(const_)?iterator<std::pair<dots::type::AnyStruct const, dots::types::DotsCloneInformation>>::operator\+\+\(\)', inc)
        def find(e_, st_, a_, f, ins):
            e_.prove(st_, s.is_(a_[0], s.cont) and isinstance(a_[1], Ptr) and a_[1].r == s.S.r, 'ensures an instance of the type is looked up'); k = to_bv(a_[1].i, 64); st_.ghost['looked'] = k
            return Ptr(s.E.r, z3.If(sel(G(st_, 'present'), k), k, z3.BitVecVal(2**40, 64)), 32)
        M_(r'^dots::Container<dots::type::Struct>::findClone\(', find)
        V = r'std::vector<std::pair<dots::type::AnyStruct const, dots::types::DotsCloneInformation> const\*,.*>::'
        def push(e_, st_, a_, f, ins):
            p = e_.rdp(st_, a_[1]); e_.prove(st_, z3.And(z3.BoolVal(isinstance(p, Ptr) and p.r == s.E.r and p.o == 32), to_bv(p.i, 64) == G(st_, 'count')), 'ensures the instances are listed in order'); st_.ghost['~count'] = G(st_, 'count') + 1; return Ptr(s.L.r, G(st_, 'count') - 1, 0)
        M_('^(.*)?' + V + r'(emplace_back|push_back)[<(]', push); M_('^' + V + r'(~?vector|reserve)\(', lambda *x: None)
        M_('^' + V + r'c?begin\(', lambda e_, st_, a_, f, ins: Ptr(s.L.r, z3.BitVecVal(0, 64), 0)); M_('^' + V + r'c?end\(', lambda e_, st_, a_, f, ins: Ptr(s.L.r, G(st_, 'count'), 0))
        M_(r'^std::vector<std::_Node_handle<dots::type::AnyStruct,.*>::clear\(', lambda *x: None)
        M_(r'^dots::type::(Struct|PropertyContainer<dots::type::Struct>)::_validProperties\(\)', lambda e_, st_, a_, f, ins: s.valid(e_, st_, a_[0]))
        M_(r'^dots::type::StaticStruct<dots::types::DotsHeader>::_Descriptor\(\)', lambda e_, st_, a_, f, ins: st_.alloc('header type', size=None, lazy=True, origin='pre'))
        M_(r'^std::__cxx11::basic_string<.*>::(~?basic_string)(<.*>)?\(', lambda e_, st_, a_, f_, ins: None)
        e.loop_specs.insert(0, (lambda e_, st_, fr, h: 'addEventHandler' in e_.m.funcs[fr.fn]['dem'], LoopInv(s.cands, 'replay')))
        return a
    def valid(s, e, st, p):
        if not (isinstance(p, Ptr) and p.r == s.S.r): raise Unsupported('valid properties of another instance')
        return z3.Select(s.VALID, to_bv(p.i, 64))
    def el_hook(s, e, st, r, off, T):
        i = to_bv(off[0], 64); e.prove(st, z3.Or(sel(G(st, 'present'), i), z3.UGE(to_bv(e.rd(st, e.padd(st, s.D, DF(e, 'm_removedInstancesUsers')), 64), 64), 1)), 'memory-safety: the instance still exists or is kept')
        return Ptr(s.S.r, i, 0) if off[1] == 32 else None
    def header(s, e, st, p):
        f = lambda n: e.m.field('dots::types::DotsHeader', n); v = to_bv(e.rd(st, e.padd(st, p, 8), 32), 32); R = lambda n, w: to_bv(e.rd(st, e.padd(st, p, f(n)), w), w); B = lambda t: z3.Extract(t, t, v) == 1
        return dict(v=v, B=B, attributes=R('attributes', 32), fromCache=R('fromCache', 32), removeObj=R('removeObj', 8), isFromMyself=R('isFromMyself', 8))
    def replayed(s, e, st, k, x):
        E = 'dots::Event<dots::type::Struct>'; p = [e.rdp(st, e.padd(st, x, e.m.field(E, n))) for n in ('m_header', 'm_transmitted', 'm_updated', 'm_cloneInfo')]; mt = to_bv(e.rd(st, e.padd(st, x, e.m.field(E, 'm_mt')), 32), 32)
        ok = all(isinstance(q, Ptr) for q in p) and p[1].r == s.S.r and p[2].r == s.S.r and p[3].r == s.E.r and p[1].o == 0 and p[2].o == 0 and p[3].o == 40
        e.prove(st, ok, 'ensures the event is about an instance of the container')
        if not ok: raise Unsupported('replay')
        i = to_bv(p[1].i, 64); H = s.header(e, st, p[0])
        e.prove(st, z3.And(to_bv(p[2].i, 64) == i, to_bv(p[3].i, 64) == i, z3.ULT(i, s.n)), 'ensures the event has one instance and its clone information'); e.prove(st, mt == 0, 'ensures the event is a create event')
        e.prove(st, sel(G(st, 'present'), i), 'ensures removed instances are not replayed'); e.prove(st, z3.Not(sel(G(st, 'served'), i)), 'ensures no instance is replayed twice'); s.hp = p[0]
        e.prove(st, z3.And(H['B'](3), H['attributes'] == z3.Select(s.VALID, i)), 'ensures the attributes are the valid properties of the instance')
        e.prove(st, z3.And(H['B'](8), H['fromCache'] == z3.Extract(31, 0, s.n - 1 - i)), 'ensures fromCache is the number of remaining instances')
        e.prove(st, z3.And(H['B'](1), H['B'](4), H['removeObj'] == 0, H['B'](6), H['isFromMyself'] == 0), 'ensures the event has a type, is no removal and not from myself')
        e.prove(st, k == s.g0[3], 'ensures the new handler is called'); setg(st, 'served', z3.Store(G(st, 'served'), i, z3.BoolVal(True)))
        P0 = G(st, 'present'); st.ghost['~present'] = z3.Const(fresh_name('present'), IDS); st.assume(all_(lambda j: z3.Implies(sel(G(st, 'present'), j), sel(P0, j)), lambda j: sel(G(st, 'present'), j)))
        s.rely(e, st); st.assume(sel(G(st, 'alive'), k))          # nobody knows the id of the new handler yet
        t = st.fork(); return Outs([('ret', st, None), ('exc', t, Exc('_ZTIi', t.alloc('exception', size=64, lazy=True), tag='handler'))])
    def cands(s, e, st, fr, h, entry):
        out = []; it = {}
        for rid in fr.allocas:
            for o, (sz, v) in sorted(st.regs[rid].cells.items(), key=str) if rid in st.regs else []:
                if isinstance(v, Ptr) and v.r in (s.E.r, s.L.r) and v.o == 0 and not (v.r == s.E.r and to_bv(v.i, 64).eq(s.n)) and not (v.r == s.L.r and to_bv(v.i, 64).eq(G(st, 'count'))): it.setdefault(v.r, to_bv(v.i, 64))
        for ins in e.m.funcs[fr.fn]['blocks'][h]['i']:
            if ins['op'] != 'phi': break
            v = fr.loc.get(ins['id'])
            if isinstance(v, Ptr) and v.r in (s.E.r, s.L.r): it[v.r] = to_bv(v.i, 64)
        if s.E.r in it and s.L.r not in it: k = it[s.E.r]; out += [('listed so far', z3.And(G(st, 'count') == k, z3.ULE(k, s.n))), ('nothing is replayed yet', all_(lambda j: z3.Not(sel(G(st, 'served'), j)), lambda j: sel(G(st, 'served'), j))), ('nothing is removed yet', all_(lambda j: z3.Implies(z3.ULT(j, s.n), sel(G(st, 'present'), j)), lambda j: sel(G(st, 'present'), j)))]
        elif s.L.r in it:
            k = it[s.L.r]; out += [('all are listed', z3.And(G(st, 'count') == s.n, z3.ULE(k, s.n))), ('instances before are replayed or removed', all_(lambda j: z3.Implies(z3.And(z3.ULT(j, k), sel(G(st, 'present'), j)), sel(G(st, 'served'), j)), lambda j: sel(G(st, 'present'), j), lambda j: sel(G(st, 'served'), j))),
                                   ('instances after are not', all_(lambda j: z3.Implies(sel(G(st, 'served'), j), z3.ULT(j, k)), lambda j: sel(G(st, 'served'), j)))]
            for rid in fr.allocas:
                if st.regs[rid].size == e.m.clssize('dots::types::DotsHeader'):
                    H = s.header(e, st, Ptr(rid, 0, 0)); out += [('fromCache', z3.And(H['B'](8), H['fromCache'] == z3.Extract(31, 0, s.n - k))), ('header', z3.And(H['B'](1), H['B'](4), H['removeObj'] == 0, H['B'](6), H['isFromMyself'] == 0))]
        out += [('the new handler stays', sel(G(st, 'alive'), s.g0[3])), ('users', to_bv(e.rd(st, e.padd(st, s.D, DF(e, 'm_removedInstancesUsers')), 64), 64) == s.users0 + 1)] + s.guar(e, st)
        out += [('ids', z3.ULE(s.g0[3] + 1, s.abs(e, st)[3])), ('only ids that were given out are marked', all_(lambda j: z3.Implies(sel(G(st, 'pend'), j), z3.ULT(j, s.abs(e, st)[3])), lambda j: sel(G(st, 'pend'), j)))]
        return out
    def ensures(s, e, st0, st, a, r): return super().ensures(e, st0, st, a, r) + [('every instance is replayed, or has been removed', all_(lambda j: z3.Implies(z3.And(z3.ULT(j, s.n), sel(G(st, 'present'), j)), sel(G(st, 'served'), j)), lambda j: sel(G(st, 'served'), j)))]
    def xensures(s, e, st0, st, a): return s.guar(e, st)
_c1 = contracts
def contracts(): return _c1() + [AddEvent('vh_add_event_handler', 'addEventHandler', ev=True)]
class Clear(Op_):
    """clear() drops all handlers of both kinds; meanwhile nothing can be registered"""
    throws = False
    def args(s, e, st):
        st.ghost['cleared'] = (); st.wregion(s.D.r).cells[DF(e, 'm_clearingHandlers')] = (1, 0); s.clearing = z3.BoolVal(False)
        def h(n):
            def f(e_, st_, a, f_, ins):
                if not s.isdisp(e_, a[0], n): raise Unsupported('clear of another map')
                e_.prove(st_, to_bv(e_.rd(st_, e_.padd(st_, s.D, DF(e_, 'm_clearingHandlers')), 8), 8) == 1, 'ensures nothing is registered or removed while handlers are destroyed'); st_.ghost['cleared'] += (n,); return None
            return f
        for n, k in (('m_transmissionHandlerPool', 'io::Transmission const&'), ('m_eventHandlerPool', 'Event<dots::type::Struct> const&')): e.model(r'^std::unordered_map<dots::type::StructDescriptor const\*, std::map<unsigned long, dots::tools::Handler<void \(dots::' + k + r'.*>::clear\(', h(n), front=True)
        return [s.D]
    def ensures(s, e, st0, st, a, r): return [('both kinds of handlers are dropped', z3.BoolVal(set(st.ghost['cleared']) == {'m_transmissionHandlerPool', 'm_eventHandlerPool'})), ('handlers can be added again', to_bv(e.rd(st, e.padd(st, s.D, DF(e, 'm_clearingHandlers')), 8), 8) == 0)]
class EventOp(Contract):
    """the event refers to exactly what it was constructed from"""
    CI = 'dots::types::DotsCloneInformation'; E = 'dots::Event<dots::type::Struct>'; F = ('m_header', 'm_transmitted', 'm_updated', 'm_cloneInfo')
    def __init__(s, w, name, post): super().__init__(w); s.name = 'Event::' + name; s.post = post
    def setup(s, e, st):
        sm.install(e, vector_types=()); m = e.m; e.dyninit = r'::Metadata$'; static_props(e)
        s.ev = st.alloc('event', size=m.clssize(s.E), lazy=s.fn != 'vh_event', origin='pre'); s.r = [st.alloc(n, size=m.clssize('dots::types::DotsHeader') if n == 'm_header' else m.clssize(s.CI) if n == 'm_cloneInfo' else None, lazy=True, origin='pre') for n in s.F]
        s.op = z3.BitVec('last_operation', 32); w = st.wregion(s.r[3].r); w.cells[m.field(s.CI, 'lastOperation')] = (4, s.op); w.cells[8] = (4, z3.BitVec('clone_properties', 32) | 2)
        h = st.wregion(s.r[0].r); s.hv = z3.BitVec('header_properties', 32); s.me = z3.BitVec('from_myself', 8); st.assume(z3.ULE(s.me, 1)); h.cells[8] = (4, s.hv); h.cells[m.field('dots::types::DotsHeader', 'isFromMyself')] = (1, s.me)
        s.mt = z3.BitVec('operation', 32)
        if s.fn == 'vh_event':
            s.om, s.oe = z3.BitVec('given_operation', 32), z3.BitVec('operation_given', 8); st.assume(z3.ULE(s.oe, 1)); o = st.alloc('optional operation', size=8, origin='pre'); st.wregion(o.r).cells[0] = (4, s.om); st.wregion(o.r).cells[4] = (1, s.oe)
            return [s.ev] + s.r + [o]
        for n, p in zip(s.F, s.r): st.wregion(s.ev.r).cells[m.field(s.E, n)] = (8, p)
        st.wregion(s.ev.r).cells[m.field(s.E, 'm_mt')] = (4, s.mt); return [s.ev]
    def frame(s, e, st0, a): return [(s.ev.r, None, 0)] if s.fn == 'vh_event' else []
    def ensures(s, e, st0, st, a, r): return s.post(s, e, st, r)
def event_contracts():
    def ctor(s, e, st, r):
        ok = all((lambda p, q: isinstance(p, Ptr) and p.r == q.r and p.o == q.o)(e.rdp(st, e.padd(st, s.ev, e.m.field(s.E, n))), q) for n, q in zip(s.F, s.r))
        return [('refers to header, transmitted and updated instance and clone information', z3.BoolVal(ok)), ('the operation is the given one, or the last one of the instance', to_bv(e.rd(st, e.padd(st, s.ev, e.m.field(s.E, 'm_mt')), 32), 32) == z3.If(s.oe == 1, s.om, s.op))]
    ref = lambda i: lambda s, e, st, r: [('refers to the ' + s.F[i][2:], z3.BoolVal(isinstance(r, Ptr) and r.r == s.r[i].r and r.o == 0))]
    mt = lambda v: lambda s, e, st, r: [('tells the operation', to_bool(r) == (s.mt == v))]
    return [EventOp('vh_event', 'Event', ctor), EventOp('vh_event_transmitted', 'transmitted', ref(1)), EventOp('vh_event_updated', 'updated', ref(2)), EventOp('vh_event_call', 'operator()', ref(2)), EventOp('vh_event_header', 'header', ref(0)), EventOp('vh_event_clone', 'cloneInfo', ref(3)),
            EventOp('vh_event_mt', 'mt', lambda s, e, st, r: [('is the operation', to_bv(r, 32) == s.mt)]), EventOp('vh_event_is_create', 'isCreate', mt(0)), EventOp('vh_event_is_update', 'isUpdate', mt(1)), EventOp('vh_event_is_remove', 'isRemove', mt(2)),
            EventOp('vh_event_from_myself', 'isFromMyself', lambda s, e, st, r: [('exactly if the header says so', to_bool(r) == z3.And(z3.Extract(6, 6, s.hv) == 1, s.me == 1))])]
_c2 = contracts
def contracts(): return _c2() + [Clear('vh_clear', 'clear')] + event_contracts()
