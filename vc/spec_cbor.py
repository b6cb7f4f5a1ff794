"""Contracts of the CBOR reader and writer (RFC 8949, definite lengths)."""
import z3
from .engine import *
from .contract import *
from . import stdmodels as sm

B8 = lambda v: z3.BitVecVal(v, 8)
def V64(v): return z3.BitVecVal(v, 64)
def zx(x, w=64):
    x = to_bv(x, w) if is_conc(x) else x
    return z3.ZeroExt(w - x.size(), x) if x.size() < w else x

# ---- spec functions -------------------------------------------------------------------------------
def head_len(x):
    """number of bytes of the shortest head for argument x"""
    return z3.If(z3.ULE(x, 23), V64(1), z3.If(z3.ULE(x, 0xff), V64(2), z3.If(z3.ULE(x, 0xffff), V64(3), z3.If(z3.ULE(x, 0xffffffff), V64(5), V64(9)))))
def head_byte(major, x, i):
    """i-th byte (i python int) of the shortest head"""
    n = head_len(x)
    if i == 0:
        ai = z3.If(z3.ULE(x, 23), z3.Extract(7, 0, x), z3.If(z3.ULE(x, 0xff), B8(24), z3.If(z3.ULE(x, 0xffff), B8(25), z3.If(z3.ULE(x, 0xffffffff), B8(26), B8(27)))))
        return B8(major) | ai
    # big endian: byte i of (n-1) bytes -> shift (n-1-i)*8
    return z3.Extract(7, 0, z3.LShR(x, (n - 1 - i) * 8))
def bytes_at(arr, base, k): return z3.Select(arr, base + k)

class Head:
    """decoded head at position c of array A with end E"""
    def __init__(s, A, c, E):
        s.A, s.c, s.E = A, c, E
        s.b = z3.Select(A, c)
        s.major = s.b & 0xE0
        s.ai = s.b & 0x1F
        s.nb = z3.If(z3.ULE(s.ai, 23), V64(0), z3.If(s.ai == 24, V64(1), z3.If(s.ai == 25, V64(2), z3.If(s.ai == 26, V64(4), V64(8)))))
        s.present = z3.ULT(c, E)
        s.ai_ok = z3.ULE(s.ai, 27)
        avail = E - c
        s.complete = z3.And(s.present, s.ai_ok, z3.ULT(s.nb, avail))
        def be(n):
            v = zx(z3.Select(A, c + 1))
            for i in range(2, n + 1): v = (v << 8) | zx(z3.Select(A, c + i))
            return v
        s.val = z3.If(z3.ULE(s.ai, 23), zx(s.ai), z3.If(s.ai == 24, be(1), z3.If(s.ai == 25, be(2), z3.If(s.ai == 26, be(4), be(8)))))
        s.next = c + 1 + s.nb

# ---- state views ----------------------------------------------------------------------------------
def callee(m, wrapper):
    """the real function a vh_ wrapper calls"""
    for b in m.funcs[wrapper]['blocks']:
        for i in b['i']:
            if i['op'] in ('call', 'invoke') and i['callee'][0] == 'f' and 'intr' not in i and 'string_view' not in m.funcs[i['callee'][1]]['dem'].split('(')[0]: return i['callee'][1]
    raise Unsupported('wrapper ' + wrapper)

def out_seq(e, st, w):
    p, t = view(e, st, 'vh_output', [w])
    return p, sm.get_seq(e, t, p, 1)
def new_writer(e, st):
    w = st.alloc('writer', size=64, lazy=True, origin='pre')
    p, t = view(e, st, 'vh_output', [w])
    n = z3.BitVec('out_len', 64); st.assume(z3.ULT(n, 1 << 40))
    s = sm.new_seq(e, st, 1, n, 'out'); st.regs[s.reg].origin = 'pre'
    st.wregion(s.reg).arrs[0] = z3.Array('out', BV64, bvw(8))
    sm.put_seq(e, st, p, s, 24, init=True)
    return w
def out_arr(e, st, w):
    p, s = out_seq(e, st, w)
    a = st.regs[s.reg].arrs.get(0)
    return a, to_bv(s.len, 64), s, p

class WriterContract(Contract):
    """requires: true; ensures: output' = output ++ enc(args), nothing else modified; never throws (allocation failure excluded)"""
    def __init__(s, m, wrapper, name, enc, mkargs):
        super().__init__(wrapper); s.real = callee(m, wrapper); s.name = name; s.enc = enc; s.mkargs = mkargs
    def setup(s, e, st):
        w = new_writer(e, st); return [w] + s.mkargs(e, st)
    def ensures(s, e, st0, st1, args, ret):
        a0, n0, q0, _ = out_arr(e, st0, args[0]); a1, n1, q1, _ = out_arr(e, st1, args[0])
        hl, hb, plen, pb = s.enc(e, st0, args[1:])
        j = z3.BitVec('j!w', 64)
        r = [('output grows by exactly the encoded length', n1 == n0 + hl + plen),
             ('bytes already written are unchanged', z3.Implies(z3.ULT(j, n0), z3.Select(a1, j) == z3.Select(a0, j)))]
        mx = 9 if hl.size and not z3.is_bv_value(z3.simplify(hl)) else z3.simplify(hl).as_long()
        for i in range(mx): r.append((f'head byte {i}', z3.Implies(z3.ULT(V64(i), hl), z3.Select(a1, n0 + i) == hb(i))))
        if pb is not None:
            r.append(('payload bytes', z3.Implies(z3.ULT(j, plen), z3.Select(a1, n0 + hl + j) == pb(j))))
        return r
    def frame(s, e, st0, args):
        p, q = out_seq(e, st0, args[0])
        return [(q.reg, None, None), (p.r, p.o, p.o + 24)]
    def havoc(s, e, st, args):
        p, q = out_seq(e, st, args[0])
        sm.put_seq(e, st, p, q.havoc(e, st), 24)

def uarg(w): return lambda e, st: [z3.BitVec('x', w)]
def enc_uint(major=0):
    def f(e, st, a):
        x = zx(to_bv(a[0], 64)) if not z3.is_bool(a[0]) else zx(to_bv(a[0], 8))
        return head_len(x), (lambda i: head_byte(major, x, i)), V64(0), None
    return f
def enc_int(w):
    def f(e, st, a):
        x = to_bv(a[0], w); sx = z3.SignExt(64 - w, x) if w < 64 else x
        neg = sx < 0
        arg = z3.If(neg, ~sx, sx)
        return head_len(arg), (lambda i: z3.If(neg, head_byte(0x20, arg, i), head_byte(0, arg, i)) if i == 0 else head_byte(0, arg, i)), V64(0), None
    return f
def enc_bool(e, st, a):
    x = to_bool(a[0]); return V64(1), (lambda i: z3.If(x, B8(0xf5), B8(0xf4))), V64(0), None
def enc_fp(w):
    def f(e, st, a):
        x = to_bv(a[0], w); n = w // 8
        return V64(1 + n), (lambda i: B8(0xfa if w == 32 else 0xfb) if i == 0 else z3.Extract(8 * (n - i) + 7, 8 * (n - i), x)), V64(0), None
    return f
def str_args(e, st):
    n = z3.BitVec('slen', 64); st.assume(z3.ULT(n, 1 << 40))
    p = st.alloc('str', stride=1, length=n, origin='pre'); st.regs[p.r].arrs[0] = z3.Array('str', BV64, bvw(8))
    return [p, n]
def enc_str(e, st, a):
    if len(a) == 2 and isinstance(a[0], Ptr) and not isinstance(a[1], Ptr): p, n = a[0], to_bv(a[1], 64)
    else: p, n = a[1], to_bv(a[0], 64)   # string_view passed as (len, ptr)
    arr = st.regs[p.r].arrs.get(0)
    return head_len(n), (lambda i: head_byte(0x60, n, i)), n, (lambda j: z3.Select(arr, to_bv(p.i, 64) + j))
def bytes_args(e, st):
    p = st.alloc('bytes16', size=16, origin='pre')
    for k in range(16): st.regs[p.r].cells[k] = (1, z3.BitVec(f'b{k}', 8))
    return [p]
def enc_bytes16(e, st, a):
    xs = [to_bv(st.regs[a[0].r].cells[a[0].o + k][1], 8) for k in range(16)]
    return V64(17), (lambda i: B8(0x50) if i == 0 else xs[i - 1]), V64(0), None
def enc_const(b): return lambda e, st, a: (V64(1), (lambda i: B8(b)), V64(0), None)

def writer_contracts(m):
    W = lambda n, name, enc, mk: WriterContract(m, 'vh_write_' + n, 'CborWriter::' + name, enc, mk)
    r = []
    for w in (8, 16, 32, 64): r.append(W(f'u{w}', f'write(uint{w})', enc_uint(), uarg(w)))
    for w in (8, 16, 32, 64): r.append(W(f'i{w}', f'write(int{w})', enc_int(w), uarg(w)))
    r.append(W('bool', 'write(bool)', enc_bool, lambda e, st: [z3.Bool('x')]))
    r.append(W('f32', 'write(float)', enc_fp(32), uarg(32))); r.append(W('f64', 'write(double)', enc_fp(64), uarg(64)))
    r.append(W('str', 'write(string)', enc_str, str_args)); r.append(W('bytes16', 'write(bytes[16])', enc_bytes16, bytes_args))
    r.append(W('arraysize', 'writeArraySize', enc_uint(0x80), uarg(64))); r.append(W('mapsize', 'writeMapSize', enc_uint(0xa0), uarg(64)))
    for n, nm, b in (('arraybegin', 'writeArrayBegin', 0x9f), ('arrayend', 'writeArrayEnd', 0xff), ('mapbegin', 'writeMapBegin', 0xbf), ('mapend', 'writeMapEnd', 0xff)):
        r.append(W(n, nm, enc_const(b), lambda e, st: []))
    return r

# ---- reader -----------------------------------------------------------------------------------------
def new_reader(e, st):
    """an arbitrary reader state: any input buffer, any position inside it, any remaining length"""
    E = z3.BitVec('end', 64); c = z3.BitVec('cur', 64)
    st.assume(z3.ULE(E, 1 << 40)); st.assume(z3.ULE(c, E))
    buf = st.alloc('input', stride=1, length=E, origin='pre'); st.regs[buf.r].arrs[0] = z3.Array('in', BV64, bvw(8)); st.regs[buf.r].const = True
    r = st.alloc('reader', size=24, origin='pre')
    fin = e.run(st, 'vh_setinput', [r, buf, E])
    assert len(fin) == 1
    t = fin[0]; t.done = None
    # move the cursor to an arbitrary position
    cp, _ = view(e, t, 'vh_cur', [r])
    t.wregion(cp.r).cells[cp.o] = (8, Ptr(buf.r, c, 0))
    for k in State.__slots__: setattr(st, k, getattr(t, k)) if k != 'ssolver' else None
    st.writes = set()
    return r, buf
def rstate(e, st, r):
    cp, _ = view(e, st, 'vh_cur', [r])
    p = st.regs[cp.r].cells[cp.o][1]
    if not isinstance(p, Ptr) or p.r == 0: raise Unsupported('reader cursor')
    reg = st.regs[p.r]
    return reg.arrs[0], to_bv(p.i, 64), to_bv(reg.length, 64), cp, p

class ReaderContract(Contract):
    """ensures: returns iff the input starts with an acceptable item; then the value is the encoded one and exactly the
    item was consumed; otherwise throws.  In both cases nothing outside [position, end of input) is read."""
    throws = True
    def __init__(s, m, wrapper, name, dec, out_bits=None, retval=False):
        super().__init__(wrapper); s.real = callee(m, wrapper); s.name = name; s.dec = dec; s.out_bits = out_bits; s.retval = retval
    def setup(s, e, st):
        r, buf = new_reader(e, st)
        args = [r]
        if s.out_bits == 'str':
            o = st.alloc('outstr', size=32, origin='pre'); sm.put_seq(e, st, o, sm.new_seq(e, st, 1, 0, 'ostr'), 32, init=True); args.append(o)
        elif s.out_bits: args.append(st.alloc('out', size=s.out_bits // 8, origin='pre', lazy=True))
        return args
    def value(s, e, st1, args, ret):
        if s.retval: return ret
        if s.out_bits == 'bool': return e.rd(st1, args[1], 8)
        if s.out_bits in (8, 16, 32, 64): return e.rd(st1, args[1], s.out_bits)
        return None
    def ensures(s, e, st0, st1, args, ret):
        A, c, E, _, _ = rstate(e, st0, args[0]); _, c1, _, _, p1 = rstate(e, st1, args[0])
        h = Head(A, c, E)
        ok, nxt, rel = s.dec(h)
        r = [('only acceptable input is accepted', ok), ('exactly one item is consumed', c1 == nxt), ('position stays inside the input', z3.ULE(c1, E)), ('position advances', z3.UGT(c1, c))]
        if rel is not None:
            v = s.value(e, st1, args, ret)
            for n, f in rel(e, st1, args, v): r.append((n, f))
        return r
    def xensures(s, e, st0, st1, args):
        A, c, E, _, _ = rstate(e, st0, args[0]); _, c1, _, _, _ = rstate(e, st1, args[0])
        ok, nxt, rel = s.dec(Head(A, c, E))
        return [('acceptable input is not rejected', z3.Not(ok)), ('position stays inside the input', z3.And(z3.ULE(c1, E), z3.ULE(c, c1)))]
    def havoc(s, e, st, args):
        A, c, E, cp, p = rstate(e, st, args[0])
        st.wregion(cp.r).cells[cp.o] = (8, Ptr(p.r, z3.BitVec(fresh_name('cur'), 64), 0)); st.writes.add((cp.r, cp.o, 8))
        if s.out_bits == 'str':
            q = sm.get_seq(e, st, args[1], 1, 32); sm.put_seq(e, st, args[1], q.havoc(e, st), 32)
        elif s.out_bits: 
            n = s.out_bits // 8
            e.store_raw(st, args[1], n, z3.BitVec(fresh_name('out'), s.out_bits))
        if s.retval: return z3.BitVec(fresh_name('ret'), 64)
    def frame(s, e, st0, args):
        _, _, _, cp, _ = rstate(e, st0, args[0])
        fr = [(cp.r, cp.o, cp.o + 8)]
        if s.out_bits: 
            fr.append((args[1].r, None, None))
            if s.out_bits == 'str': fr.append((sm.get_seq(e, st0, args[1], 1, 32).reg, None, None))
        return fr

def dec_uint(w, major=0):
    def f(h):
        ok = z3.And(h.complete, h.major == major, z3.ULE(h.nb, w // 8))
        return ok, h.next, lambda e, st1, args, v: [('value', zx(to_bv(v, w)) == h.val)]
    return f
def dec_int(w):
    def f(h):
        mx = (1 << (w - 1)) - 1
        ok = z3.And(h.complete, z3.Or(h.major == 0, h.major == 0x20), z3.ULE(h.nb, w // 8), z3.ULE(h.val, mx))
        return ok, h.next, lambda e, st1, args, v: [('value', z3.SignExt(64 - w, to_bv(v, w)) == z3.If(h.major == 0, h.val, ~h.val) if w < 64 else to_bv(v, 64) == z3.If(h.major == 0, h.val, ~h.val))]
    return f
def dec_bool(h):
    ok = z3.And(h.complete, h.major == 0xE0, z3.ULE(h.nb, 1), z3.Or(h.val == 20, h.val == 21))
    return ok, h.next, lambda e, st1, args, v: [('value', (zx(to_bv(v, 8)) & 1) == h.val - 20)]
def fps(w): return z3.FPSort(8, 24) if w == 32 else z3.FPSort(11, 53)
def dec_fp(w):
    def f(h):
        ok = z3.And(h.complete, h.major == 0xE0, z3.Or(h.nb == 2, h.nb == 4, h.nb == 8), z3.ULE(h.nb, w // 8))
        def rel(e, st1, args, v):
            v = to_bv(v, w); r = []
            r.append(('native size value is bit exact', z3.Implies(h.nb == w // 8, v == (z3.Extract(w - 1, 0, h.val)))))
            if w == 64:
                f32 = z3.fpBVToFP(z3.Extract(31, 0, h.val), fps(32))
                r.append(('single precision value is widened exactly', z3.Implies(h.nb == 4, v == z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), f32, fps(64))))))
            f16 = z3.Extract(15, 0, h.val)
            h16 = z3.fpBVToFP(f16, z3.FPSort(5, 11)); fv = z3.fpBVToFP(v, fps(w))
            r.append(('half precision value is widened exactly', z3.Implies(z3.And(h.nb == 2, z3.Not(z3.fpIsNaN(h16))), v == z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), h16, fps(w))))))
            r.append(('half precision NaN stays NaN', z3.Implies(z3.And(h.nb == 2, z3.fpIsNaN(h16)), z3.fpIsNaN(fv))))
            return r
        return ok, h.next, rel
    return f
def dec_str(h):
    ok = z3.And(h.complete, h.major == 0x60, z3.ULE(h.val, h.E - h.next))
    def rel(e, st1, args, v):
        q = sm.get_seq(e, st1, args[1], 1, 32); j = z3.BitVec('j!r', 64)
        a = st1.regs[q.reg].arrs.get(0)
        r = [('length', to_bv(q.len, 64) == h.val)]
        if a is not None: r.append(('content', z3.Implies(z3.ULT(j, h.val), z3.Select(a, j) == z3.Select(h.A, h.next + j))))
        else: r.append(('content', h.val == 0))
        return r
    return ok, h.next + h.val, rel
def dec_bytes16(h):
    ok = z3.And(h.complete, h.major == 0x40, h.val == 16, z3.ULE(V64(16), h.E - h.next))
    def rel(e, st1, args, v):
        return [(f'byte {k}', to_bv(e.rd(st1, e.padd(st1, args[1], k), 8), 8) == z3.Select(h.A, h.next + k)) for k in range(16)]
    return ok, h.next + 16, rel
def dec_const(b): return lambda h: (z3.And(h.present, h.b == b), h.c + 1, None)

def reader_contracts(m):
    R = lambda n, name, dec, bits=None, ret=False: ReaderContract(m, 'vh_read_' + n, 'CborReader::' + name, dec, bits, ret)
    r = []
    for w in (8, 16, 32, 64): r.append(R(f'u{w}', f'read(uint{w})', dec_uint(w), w))
    for w in (8, 16, 32, 64): r.append(R(f'i{w}', f'read(int{w})', dec_int(w), w))
    r.append(R('bool', 'read(bool)', dec_bool, 8)); r.append(R('f32', 'read(float)', dec_fp(32), 32)); r.append(R('f64', 'read(double)', dec_fp(64), 64))
    r.append(R('str', 'read(string)', dec_str, 'str')); r.append(R('bytes16', 'read(bytes[16])', dec_bytes16, 128))
    r.append(R('arraysize', 'readArraySize', dec_uint(64, 0x80), None, True)); r.append(R('mapsize', 'readMapSize', dec_uint(64, 0xa0), None, True))
    for n, nm, b in (('arraybegin', 'readArrayBegin', 0x9f), ('arrayend', 'readArrayEnd', 0xff), ('mapbegin', 'readMapBegin', 0xbf), ('mapend', 'readMapEnd', 0xff)):
        r.append(R(n, nm, dec_const(b)))
    return r

class ThrowHelper(Contract):
    """CborReader::throwException(msg, details): always throws; the exported span lies inside the input"""
    throws = True; never_returns = True; exc_ti = '_ZTIN4dots13serialization19SerializerExceptionE'
    def __init__(s, m):
        super().__init__(m.one(r'^dots::serialization::CborReader::throwException\(std::__cxx11::basic_string<.*> const&, std::__cxx11::basic_string<.*> const&\) const$')); s.real = s.fn; s.name = 'CborReader::throwException'
    def setup(s, e, st):
        r, buf = new_reader(e, st)
        def mk(n):
            p = st.alloc(n, size=32, origin='pre'); sm.put_seq(e, st, p, sm.new_seq(e, st, 1, z3.BitVec(n + '.len', 64), n), 32, init=True); return p
        return [r, mk('msg'), mk('details')]
    def xensures(s, e, st0, st1, args): return []
    def frame(s, e, st0, args): return []

# ---- skip --------------------------------------------------------------------------------------------
okf = z3.Function('item_ok', BV64, z3.BoolSort()); nxf = z3.Function('item_next', BV64, BV64)
okN = z3.Function('items_ok', BV64, BV64, z3.BoolSort()); nxN = z3.Function('items_next', BV64, BV64, BV64)
okM = z3.Function('pairs_ok', BV64, BV64, z3.BoolSort()); nxM = z3.Function('pairs_next', BV64, BV64, BV64)
def unfold_item(h):
    c = h.c; v = h.val; nx = h.next
    scalar = z3.Or(h.major == 0, h.major == 0x20, h.major == 0xE0); text = z3.Or(h.major == 0x40, h.major == 0x60)
    arr = h.major == 0x80; mp = h.major == 0xA0
    ok = z3.And(h.complete, h.major != 0xC0, z3.Implies(text, z3.ULE(v, h.E - nx)), z3.Implies(arr, okN(nx, v)), z3.Implies(mp, okM(nx, v)))
    nxt = z3.If(scalar, nx, z3.If(text, nx + v, z3.If(arr, nxN(nx, v), nxM(nx, v))))
    return [okf(c) == ok, z3.Implies(ok, nxf(c) == nxt)]
def unfold_n(p, n):
    q = nxf(p); q2 = nxf(q)
    return [okN(p, n) == z3.If(n == 0, z3.BoolVal(True), z3.And(okf(p), okN(q, n - 1))), nxN(p, n) == z3.If(n == 0, p, nxN(q, n - 1)),
            okM(p, n) == z3.If(n == 0, z3.BoolVal(True), z3.And(okf(p), okf(q), okM(q2, n - 1))), nxM(p, n) == z3.If(n == 0, p, nxM(q2, n - 1))]

class SkipContract(Contract):
    """ensures: returns iff a well-formed (definite length, no tag) item starts at the position, having consumed exactly it"""
    throws = True; name = 'CborReader::skip'
    def __init__(s, m): super().__init__(callee(m, 'vh_skip')); s.real = s.fn; s.entry_c = None; s.reader = None
    def setup(s, e, st):
        r, buf = new_reader(e, st); s.reader = r
        A, c, E, _, _ = rstate(e, st, r); s.entry_c = c
        h = Head(A, c, E); st.pc += unfold_item(h) + unfold_n(h.next, h.val)
        return [r]
    def ensures(s, e, st0, st1, args, ret):
        A, c, E, _, _ = rstate(e, st0, args[0]); _, c1, _, _, _ = rstate(e, st1, args[0])
        return [('only a well-formed item is skipped', okf(c)), ('exactly that item is consumed', c1 == nxf(c)), ('position advances inside the input', z3.And(z3.ULE(c1, E), z3.UGT(c1, c)))]
    def xensures(s, e, st0, st1, args):
        A, c, E, _, _ = rstate(e, st0, args[0]); _, c1, _, _, _ = rstate(e, st1, args[0])
        return [('a well-formed item is not rejected', z3.Not(okf(c))), ('position stays inside the input', z3.And(z3.ULE(c1, E), z3.ULE(c, c1)))]
    def apply(s, e, st, args):
        _, c, _, _, _ = rstate(e, st, args[0])
        e.prove(st, z3.UGT(c, s.entry_c), 'CborReader::skip: recursion is on strictly later input (termination)')
        return super().apply(e, st, args)
    def havoc(s, e, st, args):
        A, c, E, cp, p = rstate(e, st, args[0])
        st.wregion(cp.r).cells[cp.o] = (8, Ptr(p.r, z3.BitVec(fresh_name('cur'), 64), 0)); st.writes.add((cp.r, cp.o, 8))
    def frame(s, e, st0, args):
        _, _, _, cp, _ = rstate(e, st0, args[0]); return [(cp.r, cp.o, cp.o + 8)]
    def install(s, e):
        """recursive calls are checked against this contract; loops around them are cut by skip_loop_inv"""
        e.contracts[s.fn] = s
        def calls_skip(e, st, fr, header):
            f = e.m.funcs[fr.fn]
            return any(i['op'] in ('call', 'invoke') and i['callee'] == ['f', s.fn] for b in e.m.loops(fr.fn)[header] for i in f['blocks'][b]['i'])
        e.loop_specs.append((calls_skip, LoopInv(skip_loop_inv(s), name='skip: elements of a collection')))

def skip_loop_inv(contract):
    def cands(e, st, fr, header, entry):
        r = contract.reader
        A, p, E, _, _ = rstate(e, st, r); _, p0, _, _, _ = rstate(e, entry, r)
        out = [('position inside input', z3.And(z3.ULE(p, E), z3.ULE(p0, p)))]
        fe = entry.frames[-1]
        phis = []
        for ins in e.m.funcs[fr.fn]['blocks'][header]['i']:
            if ins['op'] != 'phi': break
            if e.T[ins['t']].get('w') in (64, 32): phis.append(ins['id'])
        for i in phis:
            x = zx(to_bv(fr.loc[i], 64)); x0 = zx(to_bv(fe.loc[i], 64))
            st.pc += unfold_n(p, x); st.pc += unfold_n(p0, x0)
            k = phis.index(i)
            out += [(f'phi{k} counts remaining items down', z3.And(okN(p0, x0) == okN(p, x), z3.Implies(okN(p, x), nxN(p0, x0) == nxN(p, x)))),
                    (f'phi{k} counts remaining pairs down', z3.And(okM(p0, x0) == okM(p, x), z3.Implies(okM(p, x), nxM(p0, x0) == nxM(p, x))))]
            # counting up to any 64-bit value that is live at loop entry
            for kk, v in list(fe.loc.items()):
                if kk in phis or isinstance(v, (Ptr, Undef, list, tuple, FnPtr, Tok)) or not z3.is_bv(v) or v.size() != 64 or z3.is_bv_value(v): continue
                n = v; st.pc += unfold_n(p, n - x)
                out += [(f'phi{k} counts items up to v{kk}', z3.And(z3.ULE(x, n), okN(p0, n) == okN(p, n - x), z3.Implies(okN(p, n - x), nxN(p0, n) == nxN(p, n - x)))),
                        (f'phi{k} counts pairs up to v{kk}', z3.And(z3.ULE(x, n), okM(p0, n) == okM(p, n - x), z3.Implies(okM(p, n - x), nxM(p0, n) == nxM(p, n - x))))]
        return out
    return cands
