"""Contracts of a connection: the handshake, the delivery of instances, errors and closing.
Strings are opaque values; the channel, the handlers of the user and the manager of authentications are arbitrary and can fail."""
from .spec_host import *
M = 'DotsMsg'
MSG = {'Hello': dict(serverName=1, authChallenge=2, authenticationRequired=3), 'Connect': dict(clientName=1, preloadCache=2, preloadClientFinished=3, authChallengeResponse=4, cnonce=5), 'ConnectResponse': dict(serverName=1, accepted=2, preload=3, preloadFinished=4, clientId=5), 'Error': dict(errorCode=1, errorText=2)}
HFN = lambda n: n + '('
class Conn(Contract):
    throws = True; msg = None; state = None; host = None
    def setup(s, e, st):
        sm.install(e, vector_types=()); m = e.m; e.dyninit = r'::Metadata$'; static_props(e); no_log(e); tokens(e); s.SDS = statics(e, st); M_ = lambda r, h: e.model(r, h, front=True); o = lambda n: m.field(CO, n)
        s.states = [to_bv(view(e, st, 'vh_state', [z3.BitVecVal(n, 32)])[0], 32) for n in range(5)]; s.SUS, s.CNG, s.EARLY, s.CON, s.CLO = s.states
        s.c = st.alloc('connection', size=m.clssize(CO), lazy=True, origin='pre'); s.st0, s.self0, s.peer0 = z3.BitVec('state', 32), z3.BitVec('own id', 32), z3.BitVec('id of the peer', 32)
        s.chan = st.alloc('channel', size=None, lazy=True, origin='pre'); s.ep = st.alloc('endpoint', size=None, lazy=True, origin='pre'); s.FS = st.alloc('struct type', size=m.clssize(SD), lazy=True, origin='pre'); C = st.wregion(s.c.r).cells
        C.update({o('m_connectionState'): (4, s.st0), o('m_selfId'): (4, s.self0), o('m_peerId'): (4, s.peer0), o('m_channel'): (8, s.chan)})
        s.am = st.alloc('authentication manager', size=8, origin='pre'); st.wregion(s.am.r).meta = {'vclass': 'AuthManager'}; e.vfn_handlers['AuthManager'] = s.auth; s.hasam = z3.Bool('has an authentication manager')
        e.vfn_handlers['Channel'] = s.channel_op; st.wregion(s.chan.r).meta = {'vclass': 'Channel'}
        e.vfn_handlers['std::exception'] = lambda e_, st_, slot, a, ins: s.txt
        s.txt = st.alloc('text of the error', size=16, lazy=True, origin='pre'); s.EX = st.alloc('exception', size=8, origin='pre'); st.wregion(s.EX.r).meta = {'vclass': 'std::exception'}; s.OX = st.alloc('exception of another type', size=8, origin='pre')
        st.assume(z3.Or(*[s.st0 == x for x in s.states])); st.assume(z3.Distinct(*s.states)); st.ghost['log'] = (); st.assume(s.peer0 != 0)
        for n in ('m_receiveHandler', 'm_transitionHandler'): st.assume(z3.ULE(to_bv(e.rd(st, e.padd(st, s.c, o(n) + 32), 8), 8), 1))
        s.rcv, s.rep = (to_bool(view(e, st, v, [s.c])[0]) for v in ('vh_receiving', 'vh_reporting')); st.assume(s.rcv == z3.And(s.st0 != s.SUS, s.st0 != s.CLO)); st.assume(s.rep == (s.st0 != s.SUS))
        s.HOST = z3.BitVecVal(1, 32)
        if s.host is True: st.assume(s.self0 == s.HOST); st.assume(s.peer0 != s.HOST)
        if s.host is False: st.assume(s.self0 != s.HOST); st.assume(s.peer0 == s.HOST)
        st.assume(z3.Implies(s.self0 == s.HOST, s.peer0 != s.HOST)); st.assume(z3.Implies(s.self0 != s.HOST, s.peer0 == s.HOST))
        if s.state is not None: st.assume(s.st0 == s.states[s.state])
        s.x = None
        if s.msg: s.x = st.alloc('message', size=m.clssize(T_ + M + s.msg), lazy=True, origin='pre'); st.wregion(s.x.r).cells[0] = (8, s.SDS[T_ + M + s.msg]); s.v = props_of(e, st, s.x); st.assume(s.v & ~z3.BitVecVal(sum(1 << t for t in MSG[s.msg].values()), 32) == 0)
        for f in m.find(r'^dots::type::Struct::derivedPropertyArea\(') or []: e.contracts[f] = VD('Struct::derivedPropertyArea', lambda e_, st_, a: e_.padd(st_, a[0], 8))
        for f in m.find(r"Struct::_assertHasProperties<(true|false)>\(.*::'lambda'\(") or []: e.contracts[f] = VD('list of properties for a message', lambda e_, st_, a: e_.wr(st_, a[0], 64, z3.BitVec(fresh_name('string'), 64)))
        M_(r'^std::__cxx11::basic_string<.*> dots::to_string<', lambda e_, st_, a, f, ins: e_.wr(st_, a[0], 64, z3.BitVec(fresh_name('string'), 64)))
        M_(r'::Now\(\)$', s.now); M_(r'^std::_Function_base::~_Function_base\(|^std::function<.*>::~function\(', lambda *a: None); M_(r'^(std::)?(logic|runtime)_error::(logic|runtime)_error\(|^std::(logic|runtime)_error::(logic|runtime)_error\(', lambda *a: None)
        M_(r'^dots::io::Channel::remoteEndpoint\(', lambda e_, st_, a, f, ins: s.ep); M_(r'^dots::io::Channel::localEndpoint\(', lambda e_, st_, a, f, ins: s.ep)
        M_(r'^std::(__)?shared_ptr(_access)?<dots::io::Channel.*>::operator->\(', lambda e_, st_, a, f, ins: e_.rdp(st_, a[0]))
        def ecopy(e_, st_, a, f, ins): e_.wrp(st_, a[0], e_.rdp(st_, a[1])); return None
        EP = r'^std::__exception_ptr::exception_ptr::'
        M_(EP + r'exception_ptr\(std::__exception_ptr::exception_ptr (const&|&&)\)', ecopy); M_(EP + r'exception_ptr\((decltype\(nullptr\)|std::nullptr_t|nullptr)?\)', lambda e_, st_, a, f, ins: e_.wrp(st_, a[0], NULL)); M_(EP + r'~exception_ptr\(', lambda *a: None); M_(r'^std::__exception_ptr::operator==\(', lambda e_, st_, a, f, ins: z3.BitVecVal(int(s.same(e_.rdp(st_, a[0]), e_.rdp(st_, a[1]))), 8)); M_(EP + r'operator bool\(', lambda e_, st_, a, f, ins: z3.BitVecVal(int(e_.rdp(st_, a[0]).r != 0), 8))
        M_(r'^std::rethrow_exception\(', s.rethrow); M_(r'^std::current_exception\(\)$', lambda e_, st_, a, f, ins: e_.wrp(st_, a[0], st_.caught[-1].obj if st_.caught and st_.caught[-1].obj is not None else NULL))
        def mkexc(e_, st_, a, f, ins): p = st_.alloc('exception', size=8); st_.wregion(p.r).meta = {'vclass': 'std::exception'}; st_.ghost['made'] = p; e_.wrp(st_, a[0], p); return None
        M_(r'^std::__exception_ptr::exception_ptr std::make_exception_ptr<', mkexc)
        for f in m.find(r'^dots::Connection::transmit\(dots::type::Struct const&, std::optional') or []:
            if f != s.fn: e.contracts[f] = VD('Connection::transmit', s.transmit)
        for f in m.find(r'^(void )?dots::Connection::expectSystemType<') or []: e.contracts[f] = VD('expectSystemType', s.expects(re.search(r'expectSystemType<(.*?)>\(', m.funcs[f]['dem']).group(1)))
        if not isinstance(s, SetState): e.contracts[m.one(r'^dots::Connection::setConnectionState\(')] = VD('Connection::setConnectionState', s.set_state)
        for f in m.find(r'^dots::tools::details::HandlerBase<.*>::operator\(\)\(') or []: e.contracts[f] = VD('call of a handler', s.handler(m.funcs[f]['dem']))
        if type(s) in (Error, PeerError): e.contracts[m.one(r'^dots::Connection::handle(Close)\(' if type(s) is Error else r'^dots::Connection::handleError\(')] = VD('Connection::handleClose', s.closes('close' if type(s) is Error else 'error'))
        if type(s) is PeerError: e.contracts[m.one(r'^dots::Connection::handleClose\(')] = VD('Connection::handleClose', s.closes('close'))
        return s.args(e, st)
    def same(s, p, q): return (p.r == 0 and q.r == 0) or (p.r == q.r and p.r != 0 and p.o == q.o)
    def args(s, e, st): return [s.c] + ([s.x] if s.x else [])
    def now(s, e, st, a, f, ins): v = z3.BitVec(fresh_name('now'), 64); st.ghost['now'] = v; return v
    def me(s, e, st, p):
        if not (isinstance(p, Ptr) and p.r == s.c.r and p.o == 0): raise Unsupported('another connection')
    def step(s, e, st, rec, tag, ret=None, ti='_ZTISt13runtime_error'):
        """an operation that is recorded, and can fail"""
        t = st.fork(); st.ghost['log'] += (rec,); t.ghost['log'] += (rec, ('failed', tag)); p = t.alloc('error', size=8); t.wregion(p.r).meta = {'vclass': 'std::exception'}; return Outs([('ret', st, ret), ('exc', t, Exc(ti, p, tag=tag))])
    def rethrow(s, e, st, a, f, ins):
        p = e.rdp(st, a[0]) if isinstance(a[0], Ptr) else a[0]
        if p.r == s.OX.r: return Outs([('exc', st, Exc('_ZTIi', p, tag='other'))])
        e.prove(st, p.r != 0, 'memory-safety: there is an exception to be thrown'); return Outs([('exc', st, Exc('_ZTISt13runtime_error', p, tag='std'))])
    def auth(s, e, st, slot, a, ins): raise Unsupported('authentication')
    def channel_op(s, e, st, slot, a, ins): raise Unsupported('operation of the channel')
    def transmit(s, e, st, a):
        s.me(e, st, a[0]); x = a[1]; d = e.rdp(st, x); T = next((k for k, p in s.SDS.items() if s.is_(d, p)), None)
        if T is None or not T.startswith(T_ + M): raise Unsupported('transmission of another type')
        T = T[len(T_ + M):]; v = props_of(e, st, x); s.sent(e, st, T, x, v); return s.step(e, st, ('sent', T), 'transmit')
    def is_(s, p, q, o=0): return isinstance(p, Ptr) and p.r == q.r and p.o == q.o + o
    def sent(s, e, st, T, x, v): raise Unsupported('unexpected transmission')
    def bit(s, e, st, x, T, n): return z3.Extract(0, 0, fld(e, st, x, M + T, n, 8)) == 1
    def mask(s, T, *ns): return sum(1 << MSG[T][n] for n in ns)
    def eq(s, e, st, T, n): return z3.And(s.v & (1 << MSG[T][n]) != 0, s.bit(e, st, s.x, T, n))
    def expects(s, T):
        def h(e, st, a):
            s.me(e, st, a[0]); p = z3.simplify(to_bv(a[1], 32) if not isinstance(a[1], Ptr) else e.rd(st, a[1], 32)); fn = a[2]
            fn = fn[0] if isinstance(fn, (list, tuple)) else fn
            if isinstance(fn, Ptr) and fn.r not in (0,): fn = e.rdp(st, fn)
            n = fn.name if isinstance(fn, FnPtr) else None; st.ghost['log'] += (('expect', T[len(T_ + M):], p.as_long() if z3.is_bv_value(p) else None, re.search(r'Connection::(\w+)\(', e.m.funcs[n]['dem']).group(1) if n else None),); return None
        return h
    def set_state(s, e, st, a):
        s.me(e, st, a[0]); v = z3.simplify(to_bv(a[1], 32)); n = next((i for i, x in enumerate(s.states) if z3.simplify(x == v).eq(z3.BoolVal(True))), None)
        if n is None:
            out = []
            for i, x in enumerate(s.states):
                if e.feasible(st, v == x): t = st.fork(); t.assume(v == x); out += s.set_state(e, t, [a[0], x, a[2]]).l
            return Outs(out)
        e.wr(st, e.padd(st, s.c, e.m.field(CO, 'm_connectionState')), 32, s.states[n]); p = e.rdp(st, a[2]); st.ghost['x'] = p; return s.step(e, st, ('state', n), 'transition')
    def handler(s, dem):
        def h(e, st, a): raise Unsupported('call of a handler')
        return h
    def closes(s, what):
        def h(e, st, a): s.me(e, st, a[0]); st.ghost['x'] = e.rdp(st, a[1]); return s.step(e, st, (what,), 'close')
        return h
    def now_state(s, e, st): return to_bv(e.rd(st, e.padd(st, s.c, e.m.field(CO, 'm_connectionState')), 32), 32)
    def ids(s, e, st): return z3.And(to_bv(view(e, st, 'vh_self', [s.c])[0], 32) == s.self0, to_bv(view(e, st, 'vh_peer', [s.c])[0], 32) == s.peer0)
    def tail(s, st): return st.ghost['log'][-1:] and st.ghost['log'][-1][0] == 'failed'
class SetState(Conn):
    """every transition is reported to the transition handler exactly once, whatever the error is"""
    def __init__(s, kind): Contract.__init__(s, 'vh_set_state'); s.kind = kind; s.name = f'Connection::setConnectionState ({kind})'
    def args(s, e, st):
        p = st.alloc('exception_ptr', size=8, origin='pre'); s.p = dict(none=NULL, std=s.EX, other=s.OX)[s.kind]; st.wregion(p.r).cells[0] = (8, s.p); s.to = z3.BitVec('new state', 32); st.assume(z3.Or(*[s.to == x for x in s.states])); return [s.c, s.to, p]
    def handler(s, dem):
        def h(e, st, a):
            if 'std::__exception_ptr' not in dem: raise Unsupported('call of another handler')
            e.prove(st, s.rep, 'memory-safety: there is a transition handler'); s.me(e, st, a[1]); e.prove(st, s.same(e.rdp(st, a[2]), s.p), 'ensures the handler gets the error'); e.prove(st, s.now_state(e, st) == s.to, 'ensures the handler sees the new state'); return s.step(e, st, ('handler',), 'handler')
        return h
    def ensures(s, e, st0, st, a, r): return [('the transition is reported once', z3.If(s.rep, z3.BoolVal(st.ghost['log'] == (('handler',),)), z3.BoolVal(st.ghost['log'] == ()))), ('the state is set', s.now_state(e, st) == s.to), ('nothing else changes', s.ids(e, st))]
    def xensures(s, e, st0, st, a): return [('only a failing transition handler', z3.BoolVal(st.ghost['log'] == (('handler',), ('failed', 'handler')))), ('the state is set', s.now_state(e, st) == s.to), ('nothing else changes', s.ids(e, st))]
class Close(Conn):
    """closing drops the receive handler and changes to closed, exactly once"""
    name = 'Connection::handleClose'
    def __init__(s, kind): Contract.__init__(s, 'vh_close'); s.kind = kind; s.name = f'Connection::handleClose ({kind})'
    def args(s, e, st): p = st.alloc('exception_ptr', size=8, origin='pre'); s.p = dict(none=NULL, std=s.EX, other=s.OX)[s.kind]; st.wregion(p.r).cells[0] = (8, s.p); return [s.c, p]
    def done(s, e, st): l = [x for x in st.ghost['log'] if x[0] != 'expect']; return [('the connection is closed, once', z3.BoolVal([x for x in l if x[0] == 'state'] == [('state', 4)])), ('no more instances are received', z3.Not(to_bool(view(e, st, 'vh_receiving', [s.c])[0]))), ('it is closed with the error', z3.BoolVal(s.same(st.ghost['x'], s.p))), ('nothing else is done', z3.BoolVal(all(x[0] in ('state', 'failed') for x in l)))]
    def ensures(s, e, st0, st, a, r): return s.done(e, st)
    def xensures(s, e, st0, st, a): return [('only a failing transition handler', z3.BoolVal(bool(s.tail(st))))] + s.done(e, st)
class Error(Close):
    """the peer of an established connection is told about the error; the connection is closed with it, whatever it is and whether or not the peer can be told"""
    def __init__(s, kind): Contract.__init__(s, 'vh_error'); s.kind = kind; s.name = f'Connection::handleError ({kind})'
    def sent(s, e, st, T, x, v):
        P = lambda c, n: e.prove(st, c, n); P(s.st0 == s.CON, 'ensures only peers of established connections are told'); P(z3.BoolVal(st.ghost['log'] == ()), 'ensures the peer is told once, before closing'); P(T == 'Error', 'ensures the peer is told about an error')
        if T == 'Error': P(z3.And(v & 2 != 0, v & ~z3.BitVecVal(6, 32) == 0, fld(e, st, x, 'DotsMsgError', 'errorCode', 32) != 0), 'ensures the error is marked as such')
    def done(s, e, st):
        l = [x for x in st.ghost['log'] if x != ('failed', 'transmit')]; told = ('sent', 'Error') in l; l = [x for x in l if x[0] not in ('failed', 'sent')]
        return [('the connection is closed once', z3.BoolVal(l == [('close',)])), ('it is closed with the error', z3.BoolVal(s.same(st.ghost.get('x', Ptr(-1, 0, 0)), s.p))), ('the peer of an established connection is told', z3.Implies(s.st0 == s.CON, z3.BoolVal(told)))]
class PeerError(Conn):
    """an error code of zero closes the connection without an error, any other is an error of the connection"""
    name = 'Connection::handlePeerError'; msg = 'Error'
    def __init__(s): super().__init__('vh_peer_error')
    def done(s, e, st):
        z = z3.And(s.v & 2 != 0, fld(e, st, s.x, M + s.msg, 'errorCode', 32) == 0); l = [x for x in st.ghost['log'] if x[0] != 'failed']; x = st.ghost.get('x', NULL)
        return [('closed without an error, or with one', z3.If(z, z3.BoolVal(l == [('close',)] and x.r == 0), z3.BoolVal(l == [('error',)] and x.r != 0)))]
    def ensures(s, e, st0, st, a, r): return s.done(e, st)
    def xensures(s, e, st0, st, a): return s.done(e, st) + [('only if closing fails', z3.BoolVal(bool(s.tail(st))))]
LAST = ('expect', 'Error', 2, 'handlePeerError')
class Hs(Conn):
    """a step of the handshake: what is sent, what comes next; a failing step changes to no later state"""
    host = None
    def good(s, e, st, log): raise NotImplementedError
    def ensures(s, e, st0, st, a, r): return s.good(e, st, st.ghost['log'])
    def refused(s, e, st): return z3.BoolVal(False)
    def xensures(s, e, st0, st, a): l = st.ghost['log']; return [('only a refused message, or a failing channel or handler', z3.Or(z3.BoolVal(bool(s.tail(st))), s.refused(e, st))), ('a refused message changes no state', z3.Or(z3.BoolVal(bool(s.tail(st))), z3.BoolVal(not any(x[0] == 'state' for x in l))))]
class Hello(Hs):
    """a guest answers the greeting of the host with its name, and with the response to the challenge if the host demands it"""
    name = 'Connection::handleHello'; msg = 'Hello'; host = False; state = 1
    def __init__(s): super().__init__('vh_hello')
    def args(s, e, st):
        st.assume(s.v & 6 == 6); M_ = lambda r, h: e.model(r, h, front=True); s.need = s.eq(e, st, s.msg, 'authenticationRequired'); o = e.m.field(CO, 'm_authSecret'); st.assume(z3.ULE(to_bv(e.rd(st, e.padd(st, s.c, o + 32), 8), 8), 1)); s.secret = to_bool(view(e, st, 'vh_has_secret', [s.c])[0])
        s.nm = to_bv(e.rd(st, e.padd(st, s.c, e.m.field(CO, 'm_selfName')), 64), 64); s.sv = to_bv(e.rd(st, e.padd(st, s.c, o), 64), 64); s.ch = fld(e, st, s.x, M + s.msg, 'authChallenge', 64); s.cn, s.dg = z3.BitVec('cnonce', 64), z3.BitVec('digest', 64)
        M_(r'^dots::io::Nonce::Nonce\(\)', lambda e_, st_, a, f, ins: e_.wr(st_, a[0], 64, z3.BitVec('nonce', 64))); M_(r'^dots::io::Nonce::Nonce\(unsigned long\)', lambda e_, st_, a, f, ins: e_.wr(st_, a[0], 64, to_bv(a[1], 64))); M_(r'^dots::io::Nonce::toString', lambda e_, st_, a, f, ins: e_.wr(st_, a[0], 64, s.cn))
        def digest(e_, st_, a, f, ins):
            n = e_.rd(st_, a[1], 64) if isinstance(a[1], Ptr) else a[1]; ps = [to_bv(e_.rd(st_, s.text(e_, st_, x), 64), 64) for x in a[2:] if isinstance(x, Ptr)]
            if len(ps) != 3: raise Unsupported('arguments of the digest')
            e_.prove(st_, z3.And(to_bv(n, 64) == s.ch, ps[0] == s.cn, ps[1] == s.nm, ps[2] == s.sv), 'ensures the challenge is answered with the own name and secret'); st_.ghost['digest'] = True; return None
        M_(r'^dots::io::Digest::Digest\(dots::io::Nonce, std::basic_string_view', digest); M_(r'^dots::io::Digest::toString', lambda e_, st_, a, f, ins: e_.wr(st_, a[0], 64, s.dg)); return super().args(e, st)
    def text(s, e, st, p):
        """a view of a string is passed by value, or in memory"""
        try: q = e.rdp(st, e.padd(st, p, 8)) if st.regs[p.r].origin == 'stack' and st.regs[p.r].size == 16 else p
        except Unsupported: return p
        return q if isinstance(q, Ptr) and q.r else p
    def sent(s, e, st, T, x, v):
        P = lambda c, n: e.prove(st, c, n); P(T == 'Connect', 'ensures the greeting is answered')
        if T != 'Connect': return
        f = lambda n, w: fld(e, st, x, M + T, n, w); P(v == z3.If(s.need, z3.BitVecVal(s.mask(T, 'clientName', 'preloadCache', 'authChallengeResponse', 'cnonce'), 32), z3.BitVecVal(s.mask(T, 'clientName', 'preloadCache'), 32)), 'ensures the answer is complete'); P(z3.And(f('clientName', 64) == s.nm, s.bit(e, st, x, T, 'preloadCache')), 'ensures the guest names itself and asks for the types')
        P(z3.Implies(s.need, z3.And(f('cnonce', 64) == s.cn, f('authChallengeResponse', 64) == s.dg, z3.BoolVal('digest' in st.ghost), s.secret)), 'ensures the response to the challenge is sent')
    def good(s, e, st, l): return [('the greeting is answered, then the decision of the host is expected', z3.BoolVal(l == (('sent', 'Connect'), ('expect', 'ConnectResponse', s.mask('ConnectResponse', 'clientId', 'accepted', 'preload'), 'handleAuthorizationRequest')))), ('the state stays', z3.And(s.now_state(e, st) == s.st0, s.ids(e, st)))]
    def refused(s, e, st): return z3.And(s.need, z3.Not(s.secret))
class Authorization(Hs):
    """a guest that was accepted takes the id it was given; one that was not accepted never gets connected"""
    name = 'Connection::handleAuthorizationRequest'; msg = 'ConnectResponse'; host = False; state = 1
    def __init__(s): super().__init__('vh_authorization')
    def args(s, e, st): st.assume(s.v & s.mask(s.msg, 'clientId', 'accepted', 'preload') == s.mask(s.msg, 'clientId', 'accepted', 'preload')); return super().args(e, st)
    def sent(s, e, st, T, x, v):
        P = lambda c, n: e.prove(st, c, n); P(T == 'Connect', 'ensures the guest asks for the types')
        if T == 'Connect': P(z3.And(v == s.mask(T, 'preloadClientFinished'), s.bit(e, st, x, T, 'preloadClientFinished'), s.now_state(e, st) == s.EARLY), 'ensures the guest tells that it is ready')
    def good(s, e, st, l):
        pre = s.eq(e, st, s.msg, 'preload'); i = to_bv(view(e, st, 'vh_self', [s.c])[0], 32)
        return [('only accepted guests go on', s.eq(e, st, s.msg, 'accepted')), ('the guest takes its id', i == fld(e, st, s.x, M + s.msg, 'clientId', 32)), ('the next step is preloading, or none', z3.If(pre, z3.BoolVal(l == (('state', 2), ('sent', 'Connect'), ('expect', 'ConnectResponse', s.mask(s.msg, 'preloadFinished'), 'handlePreloadFinished'))), z3.BoolVal(l == (('state', 3), LAST))))]
    def refused(s, e, st): return z3.Not(s.eq(e, st, s.msg, 'accepted'))
class PreloadFinished(Hs):
    """a guest is connected when the host has sent everything"""
    name = 'Connection::handlePreloadFinished'; msg = 'ConnectResponse'; host = False; state = 2
    def __init__(s): super().__init__('vh_preload_finished')
    def args(s, e, st): st.assume(s.v & s.mask(s.msg, 'preloadFinished') != 0); return super().args(e, st)
    def good(s, e, st, l): return [('the guest is connected', z3.BoolVal(l == (('state', 3), LAST))), ('ids stay', s.ids(e, st))]
class PreloadClientFinished(Hs):
    """a host is connected when the guest is ready, and tells it so"""
    name = 'Connection::handlePreloadClientFinished'; msg = 'Connect'; host = True; state = 2
    def __init__(s): super().__init__('vh_preload_client_finished')
    def args(s, e, st): st.assume(s.v & s.mask(s.msg, 'preloadClientFinished') != 0); return super().args(e, st)
    def sent(s, e, st, T, x, v):
        P = lambda c, n: e.prove(st, c, n); P(T == 'ConnectResponse', 'ensures the guest is told')
        if T == 'ConnectResponse': P(z3.And(v == s.mask(T, 'preloadFinished'), s.bit(e, st, x, T, 'preloadFinished')), 'ensures the end of preloading is announced'); P(s.now_state(e, st) == s.CON, 'ensures everything is sent before the end of preloading')
    def good(s, e, st, l): return [('the connection is established', z3.And(z3.BoolVal(l == (('state', 3), ('sent', 'ConnectResponse'), LAST)), s.eq(e, st, s.msg, 'preloadClientFinished'))), ('ids stay', s.ids(e, st))]
    def refused(s, e, st): return z3.Not(s.eq(e, st, s.msg, 'preloadClientFinished'))
class Connect(Hs):
    """a host accepts exactly the guests that the manager of authentications accepts, and tells a guest its id and the decision"""
    name = 'Connection::handleConnect'; msg = 'Connect'; host = True; state = 1
    def __init__(s, managed): Contract.__init__(s, 'vh_connect'); s.managed = managed; s.name = f'Connection::handleConnect ({"with" if managed else "without"} authentication)'
    def args(s, e, st):
        need = s.mask(s.msg, 'clientName', 'preloadCache'); st.assume(s.v & need == need); st.wregion(s.c.r).cells[e.m.field(CO, 'm_authManager')] = (8, s.am if s.managed else NULL); st.ghost['verified'] = z3.BoolVal(not s.managed); st.ghost['checks'] = 0; o = e.m.field(CO, 'm_nonce'); v, b = to_bv(e.rd(st, e.padd(st, s.c, o), 64), 64), to_bv(e.rd(st, e.padd(st, s.c, o + 8), 8), 8); st.assume(z3.ULE(b, 1)); s.nonce = z3.If(b == 1, v, z3.BitVecVal(0, 64))
        e.model(r'^dots::io::Nonce::Nonce\(unsigned long\)', lambda e_, st_, a, f, ins: e_.wr(st_, a[0], 64, to_bv(a[1], 64)), front=True); e.model(r'^dots::io::Digest::Digest\(std::basic_string_view', lambda e_, st_, a, f, ins: None, front=True); return super().args(e, st)
    def auth(s, e, st, slot, a, ins):
        if slot not in (3, 4): raise Unsupported('authentication')
        P = lambda c, n: e.prove(st, c, n); g = [x for x in a if isinstance(x, Ptr) and x.r == s.x.r]; n = [x for x in a[2:] if not isinstance(x, Ptr) and to_bv(x, 64).size() == 64]; P(s.is_(a[1], s.ep), 'ensures the endpoint of the guest is checked'); P(bool(g) and s.is_(g[0], s.x, e.m.field(T_ + M + s.msg, 'clientName')), 'ensures the name of the guest is checked'); P(z3.Or(*[to_bv(x, 64) == s.nonce for x in n]), 'ensures the response is checked against the challenge')
        v = z3.BitVec(fresh_name('verified'), 8); st.assume(z3.ULE(v, 1)); st.ghost['verified'] = v == 1; st.ghost['checks'] += 1; return s.step(e, st, ('verify',), 'verification', ret=v)
    def sent(s, e, st, T, x, v):
        P = lambda c, n: e.prove(st, c, n); P(T == 'ConnectResponse', 'ensures the guest is told the decision')
        if T != 'ConnectResponse': return
        P(z3.And(v == s.mask(T, 'clientId', 'accepted', 'preload'), s.bit(e, st, x, T, 'accepted') == st.ghost['verified'], s.bit(e, st, x, T, 'preload') == s.eq(e, st, s.msg, 'preloadCache'), fld(e, st, x, M + T, 'clientId', 32) == s.peer0), 'ensures the guest is told the decision and its id'); P(s.now_state(e, st) == s.CNG, 'ensures the decision is the first message')
    def good(s, e, st, l):
        pre = s.eq(e, st, s.msg, 'preloadCache'); b = (('verify',),) if s.managed else ()
        return [('only accepted guests go on', st.ghost['verified']), ('the next step is preloading, or none', z3.If(pre, z3.BoolVal(l == b + (('sent', 'ConnectResponse'), ('state', 2), ('expect', 'Connect', s.mask(s.msg, 'preloadClientFinished'), 'handlePreloadClientFinished'))), z3.BoolVal(l == b + (('sent', 'ConnectResponse'), ('state', 3), LAST)))), ('ids stay', s.ids(e, st))]
    def refused(s, e, st): return z3.And(z3.Not(st.ghost['verified']), z3.BoolVal(('sent', 'ConnectResponse') in st.ghost['log']))
class Receive(Conn):
    """instances are delivered exactly once, only after the peer was accepted and before the connection is closed, with a complete header; a message of the handshake is handled only when it is its turn"""
    def __init__(s, kind, exp=None): Contract.__init__(s, 'vh_receive'); s.kind = kind; s.exp = exp; s.name = f'Connection::handleReceive ({"instance" if kind is None else kind if kind == "Error" else kind + " while " + exp + " is expected"})'
    def args(s, e, st):
        m = e.m; C = st.wregion(s.c.r).cells; D = 'dots::io::Transmission::TransmissionData'; f = lambda n: m.field(D, n)
        s.hdr = None; s.data = st.alloc('transmission data', size=m.clssize(D), lazy=True, origin='pre'); s.inst = st.alloc('instance', size=None, lazy=True, origin='pre'); st.wregion(s.data.r).cells[f('instance')] = (8, s.inst); s.T = st.alloc('transmission', size=8, origin='pre'); st.wregion(s.T.r).cells[0] = (8, s.data); s.h = e.padd(st, s.data, f('header'))
        d = s.FS if s.kind is None else s.SDS[T_ + M + s.kind]; st.wregion(s.inst.r).cells[0] = (8, d); s.v = props_of(e, st, s.inst); st.wregion(s.FS.r).cells.update({m.field(SD, 'm_keyProperties'): (4, z3.BitVec('key properties', 32))}); s.keys = to_bv(view(e, st, 'vh_keys', [s.inst])[0], 32) if s.kind is None else None
        for f in m.find(r'^dots::type::AnyStruct::~AnyStruct\(\)') or []: e.contracts[f] = VD('~AnyStruct', lambda *a: None)
        if s.exp:
            s.want = z3.BitVec('expected properties', 32); E = s.SDS[T_ + M + s.exp]; ty, _ = view(e, st, 'vh_expected_type', [s.c]) if False else (None, None)
            o = m.field(CO, 'm_expectedSystemType'); s.place(e, st, o, E)
        s.hv = props_of(e, st, s.h); f = lambda n, w: fld(e, st, s.h, 'DotsHeader', n, w); s.h0 = {n: f(n, w) for n, w in HW.items()}; e.contracts[m.one(r'^dots::Connection::handlePeerError\(')] = VD('Connection::handlePeerError', s.peer); st.assume(z3.ULE(fld(e, st, s.h, 'DotsHeader', 'isFromMyself', 8), 1)); s.v0 = s.hv; return [s.c, s.T]
    def place(s, e, st, o, E):
        """the tuple of the expected message is laid out by the compiler: its members are found by observing it"""
        for k in range(0, 64, 8):
            t = st.fork(); t.wregion(s.c.r).cells[o + k] = (8, E); 
            try: p, _ = view(e, t, 'vh_expected_type', [s.c])
            except Unsupported: continue
            if s.is_(p, E): st.wregion(s.c.r).cells[o + k] = (8, E); break
        else: raise Unsupported('layout of the expected message')
        for k in range(0, 64, 4):
            if (o + k) in st.regs[s.c.r].cells or (o + k - 4) in st.regs[s.c.r].cells and st.regs[s.c.r].cells[o + k - 4][0] == 8: continue
            t = st.fork(); t.wregion(s.c.r).cells[o + k] = (4, s.want)
            try: p, _ = view(e, t, 'vh_expected_props', [s.c])
            except Unsupported: continue
            if z3.simplify(to_bv(p, 32)).eq(s.want): st.wregion(s.c.r).cells[o + k] = (4, s.want); break
        else: raise Unsupported('layout of the expected message')
    def peer(s, e, st, a): s.me(e, st, a[0]); e.prove(st, s.kind == 'Error' and s.is_(a[1], s.inst), 'ensures the error of the peer is handled'); return s.step(e, st, ('error',), 'error')
    def handler(s, dem):
        def h(e, st, a):
            P = lambda c, n: e.prove(st, c, n)
            if 'HandlerBase<void, dots::type::Struct const&>' in dem:
                x = e.rdp(st, a[1]) if False else a[1]; P(z3.BoolVal(s.is_(x, s.inst) and s.kind is not None and s.kind == s.exp), 'ensures only the expected message is handled'); P(s.want & ~s.v == 0 if s.kind and s.exp else False, 'ensures only a complete message is handled'); P(s.st0 != s.CLO, 'ensures nothing is handled after closing'); return s.step(e, st, ('system',), 'system')
            if 'io::Transmission' not in dem: raise Unsupported('call of another handler')
            s.me(e, st, a[1]); hd, x = hdr_at(e, st, a[2]); P(s.rcv, 'memory-safety: there is a receive handler'); P(s.is_(x, s.inst) and s.kind is None, 'ensures the received instance is delivered'); P(z3.Or(s.st0 == s.EARLY, s.st0 == s.CON), 'ensures instances are delivered only between acceptance and closing'); P(s.keys & ~s.v == 0 if s.keys is not None else False, 'ensures only instances with a complete key are delivered')
            f = lambda n: fld(e, st, hd, 'DotsHeader', n, HW[n]); v = props_of(e, st, hd); T = lambda n: 1 << TAGS[n]; had = lambda n: s.hv & T(n) != 0; isH = s.self0 == s.HOST
            P(v == s.hv | z3.If(isH, z3.BitVecVal(T('sender') | T('sentTime') | T('serverSentTime') | T('isFromMyself'), 32), z3.BitVecVal(T('sender') | T('sentTime') | T('isFromMyself'), 32)), 'ensures the header is complete'); now = st.ghost.get('now')
            P(f('sender') == z3.If(z3.Or(isH, z3.Not(had('sender'))), s.peer0, s.h0['sender']), 'ensures the sender is the peer, or whom the host names'); P((z3.Extract(0, 0, f('isFromMyself')) == 1) == (f('sender') == s.self0), 'ensures the own instances are marked')
            P(z3.Implies(had('sentTime'), f('sentTime') == s.h0['sentTime']), 'ensures the time of the sender is kept')
            if now is None: P(z3.And(z3.Not(isH), had('sentTime')), 'ensures a missing time is added')
            else: P(z3.And(z3.Implies(isH, f('serverSentTime') == now), z3.Implies(z3.Not(had('sentTime')), f('sentTime') == now)), 'ensures a missing time is added')
            P(z3.And(*[f(n) == s.h0[n] for n in ('typeName', 'attributes', 'removeObj', 'fromCache')] + [z3.Implies(z3.Not(isH), f('serverSentTime') == s.h0['serverSentTime'])]), 'ensures the rest of the header is kept'); r = z3.BitVec(fresh_name('go on'), 8); st.assume(z3.ULE(r, 1)); st.ghost['r'] = r; return s.step(e, st, ('instance',), 'instance', ret=r)
        return h
    def ensures(s, e, st0, st, a, r):
        l = st.ghost['log']; B = z3.BoolVal; c = s.st0 == s.CLO; stay = ('the connection stays as it is', z3.And(s.now_state(e, st) == s.st0, s.ids(e, st)))
        if s.kind is None: return [('an instance is delivered once, after closing it is dropped', z3.If(c, z3.And(B(l == ()), z3.Not(to_bool(r))), z3.And(B(l == (('instance',),)), to_bool(r) == (st.ghost['r'] == 1) if 'r' in st.ghost else False))), stay]
        if s.kind == 'Error': return [('an error of the peer is handled, receiving ends', z3.And(z3.Not(to_bool(r)), z3.If(c, B(l == ()), B(l == (('error',),)))))]
        return [('a message is handled if it is its turn', z3.If(c, z3.And(B(l == ()), z3.Not(to_bool(r))), z3.And(B(l == (('system',),) and s.kind == s.exp), s.want & ~s.v == 0, to_bool(r))))]
    def xensures(s, e, st0, st, a):
        l = st.ghost['log']; bad = z3.Or(z3.Not(z3.Or(s.st0 == s.EARLY, s.st0 == s.CON)), s.keys & ~s.v != 0) if s.kind is None else z3.BoolVal(False) if s.kind == 'Error' else z3.Or(z3.BoolVal(s.kind != s.exp), s.want & ~s.v != 0)
        return [('only a refused message or a failing handler, and not after closing', z3.And(s.st0 != s.CLO, z3.Or(z3.BoolVal(bool(s.tail(st))), z3.And(z3.BoolVal(l == ()), bad))))]
class Start(Conn):
    """receiving starts once: a host greets, with a challenge exactly if the manager of authentications demands it, and awaits a guest; a guest awaits the greeting"""
    def __init__(s, host, managed=False): Contract.__init__(s, 'vh_async'); s.host, s.managed = host, managed; s.name = f'Connection::asyncReceive ({"host" if host else "guest"}{", with authentication" if managed else ""})'
    def args(s, e, st):
        M_ = lambda r, h: e.model(r, h, front=True); m = e.m; A = lambda n: st.alloc(n, size=None, lazy=True, origin='pre'); s.reg = A('registry'); s.name_ = A('name'); s.nm = z3.BitVec('name', 64); st.wregion(s.name_.r).cells[0] = (8, s.nm); s.need, s.nonce = z3.BitVec('authentication needed', 8), z3.BitVec('nonce', 64); st.assume(z3.ULE(s.need, 1)); st.assume(s.need == 0) if not s.managed else None
        M_(r'^dots::io::Channel::init\(', lambda e_, st_, a, f, ins: (e_.prove(st_, s.is_(a[0], s.chan) and s.is_(a[1], s.reg), 'ensures the channel gets the registry'), s.step(e_, st_, ('init',), 'channel'))[1])
        def hctor(e_, st_, a, f, ins):
            fn = e_.rdp(st_, a[1]); obj = e_.rdp(st_, a[2])
            if not isinstance(fn, FnPtr): raise Unsupported('unknown handler')
            s.me(e_, st_, obj); st_.ghost['h%d' % a[0].r] = re.search(r'Connection::(\w+)\(', m.funcs[fn.name]['dem']).group(1); return None
        M_(r'^dots::tools::Handler<.*>::Handler<(bool|void) \(dots::Connection::\*\)', hctor); M_(r'^dots::tools::Handler<.*>::~Handler\(', lambda *a: None); M_(r'^dots::tools::Handler<.*>::Handler\(dots::tools::Handler<.*>(&&| const&)\)', lambda *a: None)
        M_(r'^dots::io::Channel::asyncReceive\(', lambda e_, st_, a, f, ins: (e_.prove(st_, s.is_(a[0], s.chan) and (st_.ghost.get('h%d' % a[1].r), st_.ghost.get('h%d' % a[2].r)) == ('handleReceive', 'handleError'), 'ensures the connection handles what is received, and errors'), s.step(e_, st_, ('receive',), 'channel'))[1])
        M_(r'^dots::io::Nonce::value\(', lambda e_, st_, a, f, ins: a[0])
        for T, n in (('bool', 'receive'), ('void', 'transition')):
            for f in m.find(rf'std::optional<dots::tools::Handler<{T} \(dots::Connection&.*>::operator=<dots::tools::Handler<') or []: e.contracts[f] = VD('handler of the user', s.took(n))
        st.wregion(s.c.r).cells[m.field(CO, 'm_authManager')] = (8, NULL); return [s.c, s.reg, s.am if s.managed else NULL, s.name_, A('receive handler'), A('transition handler')]
    def took(s, n):
        def h(e, st, a): st.ghost['log'] += (('took', n),); return a[0]
        return h
    def auth(s, e, st, slot, a, ins):
        if slot != 2: raise Unsupported('authentication')
        if isinstance(a[0], Ptr) and a[0].r == s.am.r: return s.step(e, st, ('requires',), 'authentication', ret=[s.nonce, s.need])
        e.wr(st, a[0], 64, s.nonce); e.wr(st, e.padd(st, a[0], 8), 8, s.need); return s.step(e, st, ('requires',), 'authentication')
    def sent(s, e, st, T, x, v):
        P = lambda c, n: e.prove(st, c, n); P(T == 'Hello' and s.host, 'ensures a host greets')
        if T != 'Hello': return
        b = s.need == 1; f = lambda n, w: fld(e, st, x, M + T, n, w)
        P(z3.If(b, z3.And(v == s.mask(T, 'serverName', 'authChallenge', 'authenticationRequired'), s.bit(e, st, x, T, 'authenticationRequired'), f('authChallenge', 64) == s.nonce), z3.And(v & s.mask(T, 'serverName', 'authChallenge') == s.mask(T, 'serverName', 'authChallenge'), z3.Not(z3.And(v & s.mask(T, 'authenticationRequired') != 0, s.bit(e, st, x, T, 'authenticationRequired'))))), 'ensures the greeting holds the challenge exactly if it is demanded')
    def ensures(s, e, st0, st, a, r):
        l = [x for x in st.ghost['log'] if x[0] != 'took']; exp = ('expect', 'Connect', s.mask('Connect', 'clientName', 'preloadCache'), 'handleConnect') if s.host else ('expect', 'Hello', s.mask('Hello', 'serverName', 'authChallenge'), 'handleHello')
        mid = ([('requires',)] if s.managed and s.host else []) + ([('sent', 'Hello')] if s.host else [])
        return [('receiving starts once, in order', z3.BoolVal(l == [('state', 1), ('init',), ('receive',)] + mid + [exp])), ('both handlers are taken before', z3.BoolVal(sorted(x[1] for x in st.ghost['log'][:2] if x[0] == 'took') == ['receive', 'transition'])), ('only once', s.st0 == s.SUS), ('ids stay', s.ids(e, st))]
    def xensures(s, e, st0, st, a): return [('only a second start, or a failing channel or handler', z3.Or(z3.BoolVal(bool(s.tail(st))), z3.And(s.st0 != s.SUS, z3.BoolVal(st.ghost['log'] == ()))))]
class Destroy(Conn):
    """a connection that is destroyed is closed first, once; the peer of an established one is told"""
    name = 'Connection::~Connection'; throws = False
    def __init__(s): super().__init__('vh_destroy')
    def args(s, e, st):
        m = e.m; e.contracts[m.one(r'^dots::Connection::handleClose\(')] = VD('Connection::handleClose', s.close)
        e.model(r'^std::(__)?shared_ptr<dots::io::Channel.*>::~(__)?shared_ptr\(', lambda *a: None, front=True); e.model(r'^std::optional<.*>::~optional\(', lambda *a: None, front=True); return [s.c]
    def close(s, e, st, a): s.me(e, st, a[0]); p = e.rdp(st, a[1]); st.ghost['x'] = p; st.ghost['log'] += (('close', p.r != 0),); return None
    def sent(s, e, st, T, x, v):
        P = lambda c, n: e.prove(st, c, n); P(T == 'Error' and st.ghost['log'] == (), 'ensures the peer is told before closing')
        if T == 'Error': P(z3.And(s.st0 == s.CON, v & 2 != 0, fld(e, st, x, M + T, 'errorCode', 32) == 0), 'ensures the peer of an established connection is told that it ends')
    def ensures(s, e, st0, st, a, r):
        l = [x for x in st.ghost['log']]; B = z3.BoolVal; return [('closed once, unless it was closed before', z3.If(s.st0 == s.CLO, B(l == []), z3.If(s.st0 == s.CON, B(l in ([('sent', 'Error'), ('close', False)], [('sent', 'Error'), ('failed', 'transmit'), ('close', True)])), B(l == [('close', False)]))))]
class Expected(Conn):
    """the expected message is handled by the step of the handshake that expects it"""
    def __init__(s, T, fn): Contract.__init__(s, None); s.T, s.h = T, fn; s.msg = T; s.name = f'expected message ({fn})'
    def verify(s, e): s.fn = e.m.one(rf"^(auto |void )?dots::Connection::expectSystemType<dots::types::DotsMsg{s.T}>\(.*::'lambda'\(.*::operator\(\)\("); return super().verify(e)
    def args(s, e, st):
        f = e.m.one(rf'^dots::Connection::{s.h}\('); c = st.alloc('closure', size=32, origin='pre'); st.wregion(c.r).cells.update({0: (8, s.c), 8: (8, FnPtr(f)), 16: (8, 0)})
        def go(e_, st_, a): s.me(e_, st_, a[0]); e_.prove(st_, s.is_(a[1], s.x), 'ensures the message is handled'); return s.step(e_, st_, ('handled',), 'handling')
        e.contracts[f] = VD(s.h, go); return [c, s.x]
    def ensures(s, e, st0, st, a, r): return [('handled once', z3.BoolVal(st.ghost['log'] == (('handled',),)))]
    def xensures(s, e, st0, st, a): return [('only if handling it fails', z3.BoolVal(bool(s.tail(st))))]
class Send(Conn):
    """an instance is sent once, with a header that names its type, the time, the kind of operation and exactly the given properties of the type (or all valid ones)"""
    name = 'Connection::transmit'
    def __init__(s): super().__init__('vh_send')
    def args(s, e, st):
        m = e.m; s.x = st.alloc('instance', size=None, lazy=True, origin='pre'); st.wregion(s.x.r).cells[0] = (8, s.FS); st.wregion(s.FS.r).cells.update({m.field(SD, 'm_properties'): (4, z3.BitVec('properties of the type', 32))}); s.props = to_bv(view(e, st, 'vh_props', [s.x])[0], 32); s.v = props_of(e, st, s.x); n, _ = view(e, st, 'vh_name', [s.FS]); s.nval = to_bv(e.rd(st, n, 64), 64)
        for f in m.find(r'^dots::Connection::transmit\(dots::type::Struct const&, std::optional') or []: e.contracts.pop(f, None)
        s.has, s.inc, s.rem = z3.BitVec('included given', 8), z3.BitVec('included', 32), z3.BitVec('remove', 8); st.assume(z3.ULE(s.has, 1)); st.assume(z3.ULE(s.rem, 1)); e.model(r'^dots::io::Channel::transmit\(dots::types::DotsHeader const&, dots::type::Struct const&\)', s.check, front=True); return [s.c, s.x, s.has == 1, s.inc, s.rem == 1]
    def check(s, e, st, a, fn, ins):
        P = lambda c, n: e.prove(st, c, n); h = a[1]; f = lambda n: fld(e, st, h, 'DotsHeader', n, HW[n]); T = lambda n: 1 << TAGS[n]; now = st.ghost.get('now'); P(s.is_(a[0], s.chan) and s.is_(a[2], s.x), 'ensures the instance is sent to the peer')
        P(props_of(e, st, h) == sum(T(n) for n in ('typeName', 'sentTime', 'attributes', 'removeObj')), 'ensures the header has exactly the fields of a sender'); P(z3.And(f('typeName') == s.nval, z3.Extract(0, 0, f('removeObj')) == z3.Extract(0, 0, s.rem), f('attributes') == z3.If(s.has == 1, s.inc & s.props, s.v)), 'ensures the header tells the type, the operation and the properties'); P(f('sentTime') == now if now is not None else False, 'ensures the header tells the time'); return s.step(e, st, ('sent',), 'transmit')
    def ensures(s, e, st0, st, a, r): return [('sent once', z3.BoolVal(st.ghost['log'] == (('sent',),))), ('the instance and the connection stay as they are', z3.And(props_of(e, st, s.x) == s.v, s.now_state(e, st) == s.st0, s.ids(e, st)))]
    def xensures(s, e, st0, st, a): return [('only a failing channel', z3.BoolVal(bool(s.tail(st))))]
HW = dict(typeName=64, sentTime=64, serverSentTime=64, attributes=32, sender=32, fromCache=32, removeObj=8, isFromMyself=8)
def conn_contracts():
    K = ('none', 'std', 'other'); H = ('Hello', 'Connect', 'ConnectResponse')
    return [Start(True), Start(True, True), Start(False), Destroy(), Send()] + [Expected(*x) for x in (('Hello', 'handleHello'), ('Connect', 'handleConnect'), ('Connect', 'handlePreloadClientFinished'), ('ConnectResponse', 'handleAuthorizationRequest'), ('ConnectResponse', 'handlePreloadFinished'), ('Error', 'handlePeerError'))] + [SetState(k) for k in K] + [Close(k) for k in K] + [Error(k) for k in K[1:]] + [PeerError(), Hello(), Authorization(), PreloadFinished(), PreloadClientFinished(), Connect(True), Connect(False), Receive(None), Receive('Error')] + [Receive(k, x) for k in H for x in H + ('Error',)]
