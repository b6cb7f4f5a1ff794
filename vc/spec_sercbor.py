"""Contracts of the CBOR struct serializer: which writer/reader operations happen in which order, for every type, mask and input.
The reader and writer are used by their contracts (C01-C04): `out` is the abstract output, PUT[kind](out, x) the output after writing x;
the input is abstract, its contents are functions of the position. ENC / DEC stand for a property value of the given descriptor."""
import itertools, z3
from .spec_struct import *
from .spec_struct import _q
from .contract import *
from . import stdmodels as sm
TV = 'dots::type::TypeVisitor<dots::serialization::CborSerializer, void>'; CS = 'dots::serialization::CborSerializer'
SR = 'dots::serialization::Serializer<dots::serialization::CborSerializerFormat, dots::serialization::CborSerializer, true>'
TAG = z3.Array('tag', BV64, B32)
def F(n, *a): return z3.Function(n, *a)
LEN = F('length', BV64, BV64); POP = F('popcount', B32, BV64)
ENC = F('encode', BV64, BV64, BV64, BV64)                       # output, property, value
DECV = F('decoded_value', BV64, BV64, BV64, BV64); DECP = F('decoded_end', BV64, BV64, BV64)   # property, previous value, position / property, position
TAGAT = F('tag_at', BV64, B32); TAGEND = F('tag_end', BV64, BV64); SKIP = F('skip_end', BV64, BV64); MAPN = F('map_size', BV64, BV64); MAPEND = F('map_end', BV64, BV64); ARRN = F('array_size', BV64, BV64); ARREND = F('array_end', BV64, BV64)
ENCS = F('encode_struct', BV64, BV64, B32, BV64)
PUT = {}
def put(kind, out, x):
    if kind not in PUT: PUT[kind] = F('put_' + kind, BV64, x.sort(), BV64)
    return PUT[kind](out, x)
GET = {}
def get(kind, pos, w):
    kind = kind.replace(' ', '_')
    if kind not in GET: GET[kind] = (F('get_' + kind, BV64, bvw(w)), F('end_' + kind, BV64, BV64))
    return GET[kind][0](pos), GET[kind][1](pos)
def O(st): return st.ghost['~out']
def setO(st, v): c = z3.BitVec(fresh_name('out'), 64); st.assume(c == v); st.ghost['~out'] = c
OUT0 = z3.BitVec('out0', 64); POS0 = z3.BitVec('pos0', 64); END = z3.BitVec('input_end', 64); BEG0 = z3.BitVec('begin0', 64)
EXC = '_ZTISt13runtime_error'
class Ser(Contract):
    level = None       # (const level, non-const level) at entry; None: arbitrary
    loops = True
    def world(s, e, st):
        install(e); e.tstruct = 18; m = e.m; e.posreg = None; e.poslen = None; e.opres = None
        s.D = world(e, st); F_ = lambda n: m.field('dots::type::PropertyDescriptor', n)
        st.wregion(e.pds).arrs[F_('m_tag')] = TAG
        s.A = Inst(e, st, 'A', s.D)
        S = s.S = st.alloc('serializer', size=m.clssize(CS), origin='pre')
        s.buf = st.alloc('input', stride=1, length=END, origin='pre'); st.regs[s.buf.r].const = True
        f = lambda c, n: m.field(c, n); rd = f(SR, 'm_reader'); R = 'dots::serialization::Reader<std::vector<unsigned char, std::allocator<unsigned char> > >'
        s.o_c, s.o_n = f(TV, 'm_constVisitingLevel'), f(TV, 'm_nonConstVisitingLevel'); s.o_off = f(SR, 'm_serializeOffset'); s.o_rd = rd; s.o_wr = f(SR, 'm_writer')
        s.o_pos, s.o_beg, s.o_end = rd + f(R, 'm_inputData'), rd + f(R, 'm_inputDataBegin'), rd + f(R, 'm_inputDataEnd')
        s.lc, s.ln = (z3.BitVec('const_level', 64), z3.BitVec('nonconst_level', 64)) if s.level is None else [z3.BitVecVal(x, 64) if isinstance(x, int) else x for x in s.level]
        for x in (s.lc, s.ln): st.assume(z3.ULT(x, z3.BitVecVal(1 << 32, 64)))
        w = st.wregion(S.r); P = lambda x: (8, Ptr(s.buf.r, x, 0))
        w.cells[s.o_c] = (8, s.lc); w.cells[s.o_n] = (8, s.ln); w.cells[s.o_off] = (8, z3.BitVec('offset0', 64)); w.cells[s.o_pos] = P(POS0); w.cells[s.o_beg] = P(BEG0); w.cells[s.o_end] = P(END); w.lazy = True
        st.assume(z3.And(z3.ULE(BEG0, POS0), z3.ULE(POS0, END), z3.ULE(END, 1 << 40)))
        st.ghost['~out'] = OUT0; s.models(e)
    def lev(s, e, st): return tuple(to_bv(e.rd(st, e.padd(st, s.S, o), 64), 64) for o in (s.o_c, s.o_n))
    def pos(s, e, st): return to_bv(e.rdp(st, e.padd(st, s.S, s.o_pos)).i, 64)
    def ptr(s, e, st, o):
        p = e.rdp(st, e.padd(st, s.S, o)); return p if isinstance(p, Ptr) and p.r == s.buf.r else None
    def setpos(s, e, st, x):
        st.assume(z3.And(z3.UGE(x, s.pos(e, st)), z3.ULE(x, END))); e.wrp(st, e.padd(st, s.S, s.o_pos), Ptr(s.buf.r, norm(x), 0))
    def raise_(s, e, st):
        t = st.fork(); p = z3.BitVec(fresh_name('pos'), 64); s.setpos(e, t, p); return ('exc', t, Exc(EXC, t.alloc('exc', size=64, lazy=True), tag='malformed input'))
    def mine(s, e, st, p, o, what): e.prove(st, isinstance(p, Ptr) and p.r == s.S.r and p.o == o, f'the {what} of this serializer is used')
    def prop(s, e, st, p, what):
        """property index and instance a ProxyProperty designates"""
        d, z = view(e, st, s.f_desc, [p]); a = e.rdp(z, e.padd(z, p, e.m.field('dots::type::ProxyProperty<dots::type::Typeless>', 'm_area')))
        e.prove(st, isinstance(a, Ptr) and a.r == s.A.area.r and a.o == 0, what + ': a property of this instance')
        if not (isinstance(d, Ptr) and d.r == e.pds): raise Unsupported(what)
        return to_bv(d.i, 64)
    def models(s, e):
        m = e.m; M_ = lambda r, h: e.model(r, h, front=True); W = r'dots::serialization::CborWriter::'; RD = r'dots::serialization::CborReader::'
        x = m.find(r'^dots::type::ProxyProperty<dots::type::Typeless>::derivedDescriptor\(\) const$'); s.f_desc = x[0] if x else None
        def wr_(kind, conv):
            def go(e_, st, a, f, ins): s.mine(e_, st, a[0], s.o_wr, 'writer'); setO(st, put(kind, O(st), conv(e_, st, a[1:]))); return None
            return go
        num = lambda w: lambda e_, st, a: to_bv(a[0], w)
        M_('^' + W + r'writeMapSize\(', wr_('map', num(64))); M_('^' + W + r'writeArraySize\(', wr_('array', num(64)))
        for t, w in (('unsigned char', 8), ('unsigned short', 16), ('unsigned int', 32), ('unsigned long', 64), ('signed char', 8), ('short', 16), ('int', 32), ('long', 64)):
            M_('^void ' + W + r'write<' + t + r', 0>\(' + t + r'\)', wr_(t.replace(' ', '_'), num(w)))
        M_('^' + W + r'write\(bool\)', wr_('bool', lambda e_, st, a: z3.If(a[0], z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(a[0]) else z3.ZeroExt(7, to_bv(a[0], 1)) if not (z3.is_bv(a[0]) and a[0].size() == 8) else a[0]))
        fp = lambda e_, st, a: a[0] if isinstance(a[0], z3.ExprRef) else z3.FPVal(a[0], z3.Float64())
        M_('^void ' + W + r'write<\(.*FloatFormat\)0, double, 0>', wr_('double', lambda e_, st, a: s.flt(e_, st, a[0], 64))); M_('^void ' + W + r'write<\(.*FloatFormat\)0, float, 0>', wr_('float', lambda e_, st, a: s.flt(e_, st, a[0], 32)))
        M_('^' + W + r'write\(std::basic_string_view', wr_('string', s.strview)); M_('^void ' + W + r'write<unsigned char, 16ul, 0>\(', wr_('bytes16', lambda e_, st, a: s.ident(e_, st, a[0])))
        M_(r'^dots::type::PropertySet::count\(\) const$', lambda e_, st, a, f, ins: POP(to_bv(e_.rd(st, a[0], 32), 32)))
        M_(r'^dots::serialization::Writer<.*>::output\(\)( const)?$', lambda e_, st, a, f, ins: (s.mine(e_, st, a[0], s.o_wr, 'writer'), e_.padd(st, a[0], 0))[1])
        def osize(e_, st, a, f, ins):
            if not (isinstance(a[0], Ptr) and a[0].r == s.S.r and a[0].o == s.o_wr): raise Unsupported('size of an unknown vector')
            return LEN(O(st))
        M_(r'^std::vector<unsigned char, std::allocator<unsigned char>>::size\(\) const$', osize)
        def rd_(val, end):
            def go(e_, st, a, f, ins):
                s.mine(e_, st, a[0], s.o_rd, 'reader'); x = s.raise_(e_, st); p = s.pos(e_, st); s.setpos(e_, st, end(p)); r = val(e_, st, p, a[1:]) if val else None
                return Outs([x, ('ret', st, r)])
            return go
        M_('^' + RD + r'readMapSize\(', rd_(lambda e_, st, p, a: MAPN(p), MAPEND)); M_('^' + RD + r'readArraySize\(', rd_(lambda e_, st, p, a: ARRN(p), ARREND)); M_('^' + RD + r'skip\(\)$', rd_(None, SKIP))
        M_('^unsigned int ' + RD + r'read<unsigned int, 0>\(\)$', rd_(lambda e_, st, p, a: TAGAT(p), TAGEND))
        for t, w in (('unsigned char', 8), ('unsigned short', 16), ('unsigned int', 32), ('unsigned long', 64), ('signed char', 8), ('short', 16), ('int', 32), ('long', 64), ('bool', 8), ('double', 64), ('float', 32)):
            def into(e_, st, p, a, t=t, w=w):
                v = get(t, p, w)[0]
                if t == 'bool': st.assume(z3.ULE(v, 1))
                if t in ('double', 'float'): v = s.tofp(v, w)
                e_.wr(st, a[0], w, v); return None
            M_('^void ' + RD + 'read<' + t + r', 0>\(' + t + r'&\)$', rd_(into, lambda p, t=t, w=w: get(t, p, w)[1]))
            M_('^' + t + ' ' + RD + 'read<' + t + r', 0>\(\)$', rd_(lambda e_, st, p, a, t=t, w=w: s.tofp(get(t, p, w)[0], w) if t in ('double', 'float') else get(t, p, w)[0], lambda p, t=t, w=w: get(t, p, w)[1])) if t != 'unsigned int' else None
        s.more(e)
    def more(s, e): pass
    def flt(s, e, st, v, w): return v if z3.is_bv(v) else z3.fpToIEEEBV(v) if isinstance(v, z3.ExprRef) else z3.fpToIEEEBV(z3.FPVal(v, z3.Float64() if w == 64 else z3.Float32()))
    def tofp(s, v, w): return z3.fpBVToFP(v, z3.Float64() if w == 64 else z3.Float32())
    def strview(s, e, st, a): raise Unsupported('string')
    def ident(s, e, st, p): raise Unsupported('bytes')
    def same_levels(s, e, st0, st1): return [('the visiting levels are restored', z3.And(*[a == b for a, b in zip(s.lev(e, st0), s.lev(e, st1))]))]
    def xensures(s, e, st0, st1, args): return []
    throws = True
    def untouched(s, e, st1):
        return [('the instance is unchanged', z3.And(s.A.valid(e, st1) == s.A.valid0, s.A.val(st1) == s.A.val0, s.A.con(st1) == s.A.con0))]
FO = z3.Array('encoded_upto', BV64, BV64)
class EncodeStruct(Ser):
    """visitStructInternal<true, Struct>: map of exactly the included valid properties, in descriptor order"""
    name = 'encoding of a struct (visitStructInternal)'; above = 1
    def __init__(s, m): super().__init__(m.one(r'^void ' + re.escape(TV) + r'::visitStructInternal<true, dots::type::Struct>\('))
    def setup(s, e, st):
        s.world(e, st); st.assume(z3.UGE(s.lc, 1)); s.incl = z3.BitVec('included', 32); eff = s.incl & s.A.valid0
        z = z3.BitVecVal(0, 64); st.assume(z3.Select(FO, z) == put('map', OUT0, POP(eff)))
        st.assume(forall(lambda j: z3.Select(FO, j + 1) == z3.If(sub(j, eff), ENC(put('unsigned_int', z3.Select(FO, j), z3.Select(TAG, j)), j, z3.Select(s.A.val0, j)), z3.Select(FO, j))))
        e.opinv = lambda e_, x, p: [('output so far', O(x) == z3.Select(FO, p))]
        e.loop_specs.insert(0, (lambda e_, x, fr, h: fr.fn == s.fn, STRUCT_LOOP))
        return [s.S, s.A.obj, s.incl]
    def more(s, e):
        def value(e_, st, a):
            p, d = a[1], a[2]; s.mine(e_, st, a[0], 0, 'visitor'); r, j = slot(e_, st, p, 'value')
            e_.prove(st, z3.And(p.r == s.A.slots, isinstance(d, Ptr) and d.r == e_.vds, to_bv(d.i, 64) == j if isinstance(d, Ptr) and d.r == e_.vds else False), 'ensures the value is written with its own descriptor')
            e_.prove(st, z3.Select(r.arrs['con'], j), 'lifecycle: a written value is constructed'); e_.prove(st, z3.UGT(s.lev(e_, st)[0], s.above), 'ensures values are visited inside of a visit (below the top level for properties of a struct)')
            x = st.fork(); setO(x, z3.BitVec(fresh_name('out'), 64)); setO(st, ENC(O(st), j, z3.Select(r.arrs['val'], j)))
            return Outs([('exc', x, Exc(EXC, x.alloc('exc', size=64, lazy=True), tag='encoding')), ('ret', st, None)])
        k = e.m.one(r'^void ' + re.escape(TV) + r'::visitTypeInternal<true, dots::type::Typeless>\('); e.contracts[k] = VD(k, value)
    def ensures(s, e, st0, st1, args, ret):
        return [('the output is extended by exactly the map of the included valid properties', O(st1) == z3.Select(FO, N)), *s.same_levels(e, st0, st1), *s.untouched(e, st1)]

# ---- values -------------------------------------------------------------------------------------------
SCALAR = {0: ('bool', 1), 1: ('signed_char', 1), 2: ('unsigned_char', 1), 3: ('short', 2), 4: ('unsigned_short', 2), 5: ('int', 4), 6: ('unsigned_int', 4), 7: ('long', 8),
          8: ('unsigned_long', 8), 9: ('float', 4), 10: ('double', 8), 11: ('unsigned_int', 4), 12: ('double', 8), 13: ('double', 8), 14: ('double', 8), 15: ('bytes16', 16), 16: ('string', 32), 19: ('unsigned_int', 4)}
TNAME = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64', 'property_set', 'timepoint', 'steady_timepoint', 'duration', 'uuid', 'string', 'vector', 'struct', 'enum']
class Value(Ser):
    t = 0; const = True
    def __init__(s, m, t):
        super().__init__(m.one(r'^void ' + re.escape(TV) + '::visitTypeInternal<' + ('true' if s.const else 'false') + r', dots::type::Typeless>\(')); s.t = t
        s.name = ('encoding' if s.const else 'decoding') + ' of a value of type ' + TNAME[t]
    def setup(s, e, st):
        s.world(e, st); kind, n = SCALAR[s.t]; s.kind = kind; m = e.m
        s.d = st.alloc('value descriptor', size=None, lazy=True, origin='pre'); w = st.wregion(s.d.r); w.cells[m.field('dots::type::Descriptor<dots::type::Typeless>', 'm_type')] = (1, s.t)
        s.v = st.alloc('value', size=n, origin='pre'); w = st.wregion(s.v.r); s.x = z3.BitVec('x', 8 * n if n <= 16 else 64)
        if n <= 8: w.cells[0] = (n, s.x)
        elif n == 16: w.cells[0] = (8, z3.Extract(63, 0, s.x)); w.cells[8] = (8, z3.Extract(127, 64, s.x))
        else:
            q = sm.new_seq(e, st, 1, z3.BitVec('string_length', 64), 'characters'); s.q = q; st.regs[q.reg].origin = 'pre'; st.assume(z3.ULT(q.len, 1 << 40)); sm.put_seq(e, st, s.v, q, 32, init=True)
        if s.t == 0: st.assume(z3.ULE(s.x, 1))
        return [s.S, s.v, s.d]
    def more(s, e):
        M_ = lambda r, h: e.model(r, h, front=True)
        M_(r'^dots::type::Uuid::data\(\) const$', lambda e_, st, a, f, ins: a[0])
        M_(r'^std::__cxx11::basic_string<char, .*>::operator std::basic_string_view<', lambda e_, st, a, f, ins: (lambda q: [q.len, Ptr(q.reg, 0, 0)])(sm.get_seq(e_, st, a[0], 1, 32)))
        def uuid(e_, st, a, f, ins):
            for o in (0, 8): e_.wr(st, e_.padd(st, a[0], o), 64, e_.rd(st, e_.padd(st, a[1], o), 64))
            return None
        M_(r'^dots::type::Uuid::Uuid\(std::array<unsigned char, 16ul> const&\)$', uuid)
        s.enum(e)
        def constr(e_, st, a):
            e_.prove(st, isinstance(a[0], Ptr) and a[0].r == s.d.r, "ensures the value's own descriptor is used"); e_.wr(st, a[1], 32, e_.rd(st, a[2], 32)); return a[1]
        for k in e.m.find(r'^dots::type::EnumDescriptor::(construct|constructInPlace|assign)\(dots::type::Typeless&, dots::type::Typeless( const&|&&)\) const$'): e.contracts[k] = VD(k, constr)
    def enum(s, e): pass
    def ident(s, e, st, p): return z3.simplify(z3.Concat(to_bv(e.rd(st, e.padd(st, p, 8), 64), 64), to_bv(e.rd(st, p, 64), 64)))
    def strview(s, e, st, a):
        n, p = a[0], a[1]
        e.prove(st, z3.And(isinstance(p, Ptr) and p.r == s.q.reg and p.o == 0, to_bv(p.i, 64) == 0, to_bv(n, 64) == s.q.len), 'ensures exactly the characters of the value are written'); return s.x
ETAG = F('enumerator_tag', BV64, B32); EIX = F('enumerator_of_value', B32, BV64); EIT = F('enumerator_of_tag', B32, BV64); EVAL = F('enumerator_value', BV64, B32)
class EncodeValue(Value):
    const = True
    def enum(s, e):
        m = e.m
        def by_value(e_, st, a):
            e_.prove(st, isinstance(a[0], Ptr) and a[0].r == s.d.r, "ensures the value's own enum descriptor is used")
            x = to_bv(e_.rd(st, a[1], 32), 32) if isinstance(a[1], Ptr) else to_bv(a[1], 32); t = st.fork(); p = st.alloc('enumerator', size=None, lazy=True)
            st.wregion(p.r).cells[m.field('dots::type::EnumeratorDescriptor', 'm_tag')] = (4, ETAG(EIX(x)))
            return Outs([('exc', t, Exc('_ZTISt11logic_error', t.alloc('exc', size=64, lazy=True), tag='no such enumerator')), ('ret', st, p)])
        for k in m.find(r'^dots::type::EnumDescriptor::enumeratorFromValue\('): e.contracts[k] = VD(k, by_value)
    def ensures(s, e, st0, st1, args, ret):
        v = ETAG(EIX(s.x)) if s.t == 19 else s.x
        return [('exactly one item with the content of the value is written', O(st1) == put(s.kind, OUT0, v)), *s.same_levels(e, st0, st1)]
    def frame(s, e, st0, args): return [(s.S.r, None, None)]
class DecodeValue(Value):
    const = False
    def setup(s, e, st):
        a = super().setup(e, st); m = e.m
        if s.t == 19:
            w = st.wregion(s.d.r); w.cells[0] = (8, Ptr(e.gptr(st, '_ZTVN4dots4type14EnumDescriptorE').r, 0, 16)); C = 'dots::type::EnumeratorDescriptor'
            def by_tag(e_, x, a):
                e_.prove(x, isinstance(a[0], Ptr) and a[0].r == s.d.r, "ensures the value's own enum descriptor is used"); t = x.fork(); p = x.alloc('enumerator', size=None, lazy=True)
                x.wregion(p.r).cells[m.field(C, 'm_value')] = (4, EVAL(EIT(to_bv(a[1], 32))))
                return Outs([('exc', t, Exc('_ZTISt11logic_error', t.alloc('exc', size=64, lazy=True), tag='no such enumerator')), ('ret', x, p)])
            for k in m.find(r'^dots::type::EnumDescriptor::enumeratorFromTag\('): e.contracts[k] = VD(k, by_tag)
        return a
    def bits(s, v, w): return z3.fpToIEEEBV(v) if z3.is_fp(v) else to_bv(v, w)
    def result(s, e, st):
        kind, n = SCALAR[s.t]
        return s.bits(e.rd(st, s.v, 8 * n), 8 * n) if n <= 8 else s.ident(e, st, s.v)
    def ensures(s, e, st0, st1, args, ret):
        kind, n = SCALAR[s.t]
        if s.t == 16: val = st1.ghost['~str'] == get('string', POS0, 64)[0]
        elif s.t == 19: val = s.result(e, st1) == EVAL(EIT(TAGAT(POS0)))
        elif s.t == 11: val = s.result(e, st1) == TAGAT(POS0)
        elif kind in ('float', 'double'): val = s.tofp(s.result(e, st1), 8 * n) == s.tofp(get(kind, POS0, 8 * n)[0], 8 * n)
        else: val = s.result(e, st1) == get(kind, POS0, 8 * n)[0]
        return [('the value is replaced by the item at the read position', val), ('exactly one item is consumed', s.pos(e, st1) == (TAGEND(POS0) if s.t in (11, 19) else get(kind, POS0, 64 if s.t == 16 else 8 * n)[1])), ('no output', O(st1) == OUT0), *s.same_levels(e, st0, st1)]
    def enum(s, e):
        RD = r'dots::serialization::CborReader::'; M_ = lambda r, h: e.model(r, h, front=True)
        def rstr(e_, st, a, f, ins):
            s.mine(e_, st, a[0], s.o_rd, 'reader'); e_.prove(st, isinstance(a[1], Ptr) and a[1].r == s.v.r and a[1].o == 0, 'ensures the value itself is read'); x = s.raise_(e_, st); p = s.pos(e_, st); v, en = get('string', p, 64); s.setpos(e_, st, en); st.ghost['~str'] = v
            return Outs([x, ('ret', st, None)])
        M_('^(void )?' + RD + r'read(<std::__cxx11::basic_string.*>)?\(std::__cxx11::basic_string', rstr)
        def r16(e_, st, a, f, ins):
            ret = [a_ for a_ in a]; sret = len(a) == 2
            s.mine(e_, st, a[1] if sret else a[0], s.o_rd, 'reader'); x = s.raise_(e_, st); p = s.pos(e_, st); v, en = get('bytes16', p, 128); s.setpos(e_, st, en); lo, hi = z3.Extract(63, 0, v), z3.Extract(127, 64, v)
            if sret: e_.wr(st, a[0], 64, lo); e_.wr(st, e_.padd(st, a[0], 8), 64, hi); return Outs([x, ('ret', st, None)])
            return Outs([x, ('ret', st, [lo, hi])])
        M_('^std::array<unsigned char, 16ul> ' + RD + r'read<std::array<unsigned char, 16ul>', r16)
        M_('^(void )?' + RD + r'read<.*>\(std::array<unsigned char, 16ul>&\)', lambda e_, st, a, f, ins: (_ for _ in ()).throw(Unsupported('array read')))

class EnumLookup(Ser):
    """EnumDescriptor::enumeratorFromTag / enumeratorFromValue: the first enumerator with the tag (value); throws exactly if there is none"""
    def __init__(s, m, by): super().__init__('vh_enum_' + by); s.by = by; s.name = 'enumerator lookup by ' + by
    def setup(s, e, st):
        m = e.m; install(e); sm.install(e, vector_types=('dots::type::EnumeratorDescriptor',)); find_model(e); C = 'dots::type::EnumeratorDescriptor'
        s.D = st.alloc('enum descriptor', size=m.clssize('dots::type::EnumDescriptor'), lazy=True, origin='pre'); s.n = z3.BitVec('n_enumerators', 64); st.assume(z3.ULT(s.n, 1 << 32))
        q = sm.new_seq(e, st, m.clssize(C), s.n, 'enumerators'); s.q = q.reg; st.regs[q.reg].origin = 'pre'; s.T = z3.Array('etags' if s.by == 'tag' else 'evalues', BV64, B32); st.wregion(q.reg).arrs[m.field(C, 'm_' + s.by)] = s.T
        sm.put_seq(e, st, e.padd(st, s.D, m.field('dots::type::EnumDescriptor', 'm_enumerators')), q, 24, init=True); s.x = z3.BitVec('x', 32); j = z3.BitVec('j!en', 64)
        st.assume(z3.ForAll([j], MARK(j), patterns=[z3.Select(s.T, j)])); return [s.D, s.x]
    def all(s, f): j = z3.BitVec('j!el', 64); return z3.ForAll([j], f(j), patterns=[z3.Select(s.T, j)])
    def ensures(s, e, st0, st1, args, ret):
        if not (isinstance(ret, Ptr) and ret.r == s.q and ret.o == 0): return [('an enumerator of the descriptor is returned', z3.BoolVal(False))]
        k = to_bv(ret.i, 64); return [(f'the first enumerator with the {s.by} is returned', z3.And(z3.ULT(k, s.n), z3.Select(s.T, k) == s.x, s.all(lambda j: z3.Implies(z3.ULT(j, k), z3.Select(s.T, j) != s.x))))]
    def xensures(s, e, st0, st1, args): return [('there is no such enumerator', s.all(lambda j: z3.Implies(z3.ULT(j, s.n), z3.Select(s.T, j) != s.x)))]
    def frame(s, e, st0, args): return []
# ---- first element with a property (std::find_if, trusted) -----------------------------------------------
def find_model(e, label=None):
    """std::find_if(first, last, pred): the first position whose element satisfies the predicate (the real predicate, executed on an arbitrary element), or last"""
    from .spec_dispatch import callees
    def go(e_, st, a, f, ins):
        if len(a) != 3 or not all(isinstance(x, Ptr) and x.r == a[0].r and x.o == 0 for x in a[:2]): raise Unsupported('find_if ' + str(a)[:200])
        lam = callees(e_.m, f, r'^bool __gnu_cxx::__ops::_Iter_pred<.*>::operator\(\)<')
        if len(lam) != 1: raise Unsupported('predicate of find_if')
        z = st.fork(); z.frames = []; z.done = None; clo = z.alloc('closure', size=8, origin='stack')
        (e_.wrp(z, clo, a[2]) if isinstance(a[2], Ptr) else e_.wr(z, clo, a[2].size() if z3.is_bv(a[2]) else 32, a[2]))
        j = z3.BitVec(fresh_name('j'), 64); e_.quiet += 1
        z.assume(z3.And(z3.UGE(j, to_bv(a[0].i, 64)), z3.ULT(j, to_bv(a[1].i, 64)))); w0 = set(z.writes)
        try: fin = e_.run(z, lam[0], [clo, Ptr(a[0].r, j, 0)])
        finally: e_.quiet -= 1
        if any(x.done[0] != 'ret' for x in fin): raise Unsupported('predicate of find_if throws')
        n0 = len(st.pc); T = z3.Or(*[z3.And(*x.pc[n0:], to_bool(x.done[1])) for x in fin]) if len(fin) > 1 else to_bool(fin[0].done[1])
        at = lambda k: z3.substitute(T, (j, k)); pats = []
        def sel(t, d=0):
            if z3.is_select(t) and t.arg(1).eq(j) and not any(t.eq(x) for x in pats): pats.append(t)
            for c in t.children(): sel(c)
        sel(T); lo, hi = to_bv(a[0].i, 64), to_bv(a[1].i, 64); out = []
        for found in (True, False):
            t = st.fork(); k = z3.BitVec(fresh_name('found'), 64) if found else hi; q = z3.BitVec(f'j!{next(_q)}', 64)
            if found: t.assume(z3.And(z3.UGE(k, lo), z3.ULT(k, hi), at(k), MARK(k)))
            t.assume(z3.ForAll([q], z3.Implies(z3.And(z3.UGE(q, lo), z3.ULT(q, k)), z3.Not(at(q))), patterns=[z3.substitute(x, (j, q)) for x in pats] + [MARK(q)]))
            if e_.feasible(t): out.append(('ret', t, Ptr(a[0].r, norm(k), 0)))
        return Outs(out)
    e.model(r'^(?!.*__gnu_cxx::__ops::_Iter_pred.*::).*std::find_if<', go, front=True)
# ---- decoding -------------------------------------------------------------------------------------------
PN = F('pos_after', BV64, BV64); VN = F('valid_after', BV64, B32); XN = F('values_after', BV64, z3.ArraySort(BV64, BV64)); CN = F('constructed_after', BV64, z3.ArraySort(BV64, z3.BoolSort()))
IX = F('property_with_tag', B32, BV64)      # the first property of the list with this tag, N if there is none
def ix_axioms():
    t = z3.BitVec('t!ax', 32); j = z3.BitVec('j!ix', 64)
    return [z3.ForAll([t], z3.And(z3.ULE(IX(t), N), MARK(IX(t)), z3.Implies(z3.ULT(IX(t), N), z3.Select(TAG, IX(t)) == t)), patterns=[IX(t)]),
            z3.ForAll([t, j], z3.Implies(z3.And(z3.ULT(j, IX(t))), z3.Select(TAG, j) != t), patterns=[z3.MultiPattern(IX(t), z3.Select(TAG, j)), z3.MultiPattern(IX(t), MARK(j))])]
class Dec(Ser):
    def proxy(s, e, st, name='property'):
        m = e.m; C = 'dots::type::ProxyProperty<dots::type::Typeless>'; s.j = z3.BitVec('property', 64); st.assume(z3.And(z3.ULT(s.j, N), MARK(s.j)))
        p = st.alloc(name, size=m.clssize(C), origin='pre'); k = m.find(r'^dots::type::ProxyProperty<dots::type::Typeless>::ProxyProperty\(dots::type::PropertyArea&, dots::type::PropertyDescriptor const&\)')
        inplace(e, st, k[0], [p, s.A.area, Ptr(e.pds, s.j, 0)]); return p
    def inst_is(s, e, st, valid, val, con): return z3.And(s.A.valid(e, st) == valid, s.A.val(st) == val, s.A.con(st) == con)
    def set_inst(s, e, st, valid, val, con):
        e.wr(st, s.A.area, 32, valid); r = st.wregion(s.A.slots); r.arrs['val'] = val; r.arrs['con'] = con; st.writes.add((s.A.slots, 'seq', 'val')); st.writes.add((s.A.slots, 'seq', 'con'))
    def havoc_inst(s, e, st):
        v = (z3.BitVec(fresh_name('valid'), 32), z3.Const(fresh_name('val'), z3.ArraySort(BV64, BV64)), z3.Const(fresh_name('con'), z3.ArraySort(BV64, z3.BoolSort()))); s.set_inst(e, st, *v); st.assume(inv(v[0], v[2]))
    def lifecycle(s, e, st): return [('a property is valid exactly if it is constructed', inv(s.A.valid(e, st), s.A.con(st)))]
    def decode(s, e, st, j, what):
        """effect of decoding property j at the current position"""
        v, x, c, p = s.A.valid(e, st), s.A.val(st), s.A.con(st), s.pos(e, st); prev = z3.If(bit(v, j), z3.Select(x, j), DEF(j))
        return (v | z3.Select(SET, j), z3.Store(x, j, DECV(j, prev, p)), z3.Store(c, j, z3.BoolVal(True)), DECP(j, p))
    def value_vd(s, e):
        """visitTypeInternal<false, Typeless>(value, descriptor): replaces the value by the one at the read position (proved per type)"""
        def value(e_, st, a):
            p, d = a[1], a[2]; s.mine(e_, st, a[0], 0, 'visitor'); r, j = slot(e_, st, p, 'value')
            e_.prove(st, z3.And(p.r == s.A.slots, isinstance(d, Ptr) and d.r == e_.vds, to_bv(d.i, 64) == j if isinstance(d, Ptr) and d.r == e_.vds else False), 'ensures the value is read with its own descriptor')
            e_.prove(st, z3.Select(r.arrs['con'], j), 'lifecycle: a value is read into a constructed object'); e_.prove(st, z3.UGE(s.lev(e_, st)[1], 1), 'ensures values are visited inside of a visit')
            x = s.raise_(e_, st); wr(e_, x[1], p.r, 'val', j, z3.BitVec(fresh_name('partial'), 64))
            q = s.pos(e_, st); y = z3.Select(r.arrs['val'], j); wr(e_, st, p.r, 'val', j, DECV(j, y, q)); s.setpos(e_, st, DECP(j, q))
            return Outs([x, ('ret', st, None)])
        k = e.m.one(r'^void ' + re.escape(TV) + r'::visitTypeInternal<false, dots::type::Typeless>\('); e.contracts[k] = VD(k, value)
    def visit_vd(s, e):
        def visit(e_, st, a):
            s.mine(e_, st, a[0], 0, 'visitor'); j = s.prop(e_, st, a[1], 'ensures the decoded property'); e_.prove(st, z3.ULT(j, N), 'ensures the decoded property exists')
            n = s.decode(e_, st, j, ''); x = s.raise_(e_, st); t = x[1]; s.set_inst(e_, t, n[0], z3.Store(s.A.val(t), j, z3.BitVec(fresh_name('partial'), 64)), n[2])
            s.set_inst(e_, st, *n[:3]); s.setpos(e_, st, n[3]); return Outs([x, ('ret', st, None)])
        s.f_visit = e.m.find(r'^void ' + re.escape(TV) + r'::visit<dots::type::ProxyProperty<dots::type::Typeless>, 0>\(dots::type::ProxyProperty<dots::type::Typeless>&, bool\)')
        for k in s.f_visit: e.contracts[k] = VD(k, visit)
class DecodeProperty(Dec):
    """visit(property) while decoding: the property exists afterwards and has the value at the read position"""
    name = 'decoding of a property (visit)'
    def __init__(s, m): super().__init__(m.one(r'^void ' + re.escape(TV) + r'::visit<dots::type::ProxyProperty<dots::type::Typeless>, 0>\(dots::type::ProxyProperty<dots::type::Typeless>&, bool\)'))
    def setup(s, e, st): s.world(e, st); p = s.proxy(e, st); s.want = s.decode(e, st, s.j, ''); return [s.S, p, z3.Bool('first')]
    def more(s, e): s.value_vd(e)
    def ensures(s, e, st0, st1, args, ret):
        w = s.want; return [('the property is valid and holds the value at the read position, the others are unchanged', s.inst_is(e, st1, *w[:3])), ('exactly its value is consumed', s.pos(e, st1) == w[3]), ('no output', O(st1) == OUT0), *s.same_levels(e, st0, st1), *s.lifecycle(e, st1)]
    def xensures(s, e, st0, st1, args):
        w = s.want; k = lambda j: z3.Implies(j != s.j, z3.And(z3.Select(s.A.val(st1), j) == z3.Select(s.A.val0, j), z3.Select(s.A.con(st1), j) == z3.Select(s.A.con0, j)))
        return [*s.same_levels(e, st0, st1), *s.lifecycle(e, st1), ('the other properties are unchanged', z3.And(z3.Or(s.A.valid(e, st1) == w[0], s.A.valid(e, st1) == s.A.valid0), forall(k))), ('no output', O(st1) == OUT0)]
class EntryLoop(LoopInv):
    def __init__(s, c): super().__init__(s.go, 'map entries'); s.c = c
    def go(s, e, st, fr, h, entry):
        c = s.c; k = st.ghost['~step']; n = MAPN(POS0); out = [('entries read so far', z3.ULE(k, n)), ('position after the entries so far', c.pos(e, st) == PN(k)), ('instance after the entries so far', c.inst_is(e, st, VN(k), XN(k), CN(k))),
               ('output unchanged', O(st) == OUT0), ('a property is valid exactly if it is constructed', inv(c.A.valid(e, st), c.A.con(st))), *[(f'visiting level {i}', a == b) for i, (a, b) in enumerate(zip(c.lev(e, st), (c.lc, c.ln)))]]
        for f in st.frames:
            for rid in f.allocas:
                r = st.regs.get(rid)
                for o, (sz, v) in sorted(r.cells.items()) if r is not None else []:
                    if sz != 4 or isinstance(v, (Ptr, Undef)) or not (z3.is_bv(v) or isinstance(v, int)): continue
                    i = to_bv(v, 32); nm = f'{r.name}+{o}'; out += [(nm + ' is the effective mask after the first entry', z3.Or(i == c.eff, z3.And(k == 0, i == c.incl))), (nm + ' is the effective mask', i == c.eff), (nm + ' is the given mask', i == c.incl)]
        for p in s.phis(e, fr, h):
            v = fr.loc.get(p['id'])
            if z3.is_bv(v) or isinstance(v, int):
                if z3.is_bv(v) and v.size() != 64: continue
                v = to_bv(v, 64); out += [(f'phi{p["id"]} counts entries', v == k), (f'phi{p["id"]} counts remaining entries', v == n - k), (f'phi{p["id"]} counts entries + 1', v == k + 1)]
        for rid in fr.allocas:
            r = st.regs.get(rid)
            for o, (sz, v) in sorted(r.cells.items()) if r is not None else []:
                if sz == 8 and (z3.is_bv(v) or isinstance(v, int)): v = to_bv(v, 64); out += [(f'{r.name}+{o} counts entries', v == k), (f'{r.name}+{o} counts remaining entries', v == n - k), (f'{r.name}+{o} is the number of entries', v == n)]
        return out
class DecodeStruct(Dec):
    """visitStructInternal<false, Struct>: every entry of the map in turn; known, included tags are decoded into their property, all others skipped"""
    name = 'decoding of a struct (visitStructInternal)'
    def __init__(s, m): super().__init__(m.one(r'^void ' + re.escape(TV) + r'::visitStructInternal<false, dots::type::Struct>\('))
    def setup(s, e, st):
        s.world(e, st); st.assume(z3.UGE(s.ln, 1)); s.incl = z3.BitVec('included', 32); s.eff = z3.If(z3.UGT(s.ln, 1), z3.BitVecVal(0xffffffff, 32), s.incl); 
        z = z3.BitVecVal(0, 64); st.ghost['~step'] = z; st.assume(z3.And(PN(z) == MAPEND(POS0), VN(z) == s.A.valid0, XN(z) == s.A.val0, CN(z) == s.A.con0))
        for a in ix_axioms(): st.assume(a)
        e.loop_specs.insert(0, (lambda e_, x, fr, h: fr.fn == s.fn or 'CborSerializer' in e_.m.funcs[fr.fn]['dem'], EntryLoop(s))); find_model(e)
        return [s.S, s.A.obj, s.incl]
    def step_def(s, st, k):
        """definition of the state after entry k"""
        p = PN(k); t = TAGAT(p); q = TAGEND(p); j = IX(t); take = z3.And(z3.ULT(j, N), sub(j, s.eff)); prev = z3.If(bit(VN(k), j), z3.Select(XN(k), j), DEF(j))
        st.assume(z3.And(PN(k + 1) == z3.If(take, DECP(j, q), SKIP(q)), VN(k + 1) == z3.If(take, VN(k) | z3.Select(SET, j), VN(k)), XN(k + 1) == z3.If(take, z3.Store(XN(k), j, DECV(j, prev, q)), XN(k)), CN(k + 1) == z3.If(take, z3.Store(CN(k), j, z3.BoolVal(True)), CN(k))))
        st.assume(MARK(j))
    def more(s, e):
        s.visit_vd(e); RD = r'dots::serialization::CborReader::'
        def tag(e_, st, a, f, ins):
            s.mine(e_, st, a[0], s.o_rd, 'reader'); x = s.raise_(e_, st); p = s.pos(e_, st); k = st.ghost['~step']; e_.prove(st, z3.ULT(k, MAPN(POS0)), 'ensures no entry beyond the map is read'); s.step_def(st, k); c = z3.BitVec(fresh_name('step'), 64); st.assume(c == k + 1); st.ghost['~step'] = c
            r = TAGAT(p); s.setpos(e_, st, TAGEND(p)); return Outs([x, ('ret', st, r)])
        e.model('^unsigned int ' + RD + r'read<unsigned int, 0>\(\)$', tag, front=True)
    def ensures(s, e, st0, st1, args, ret):
        n = MAPN(POS0); return [('all entries of the map were decoded', st1.ghost['~step'] == n), ('the instance is changed by exactly the included known properties of the map', s.inst_is(e, st1, VN(n), XN(n), CN(n))), ('exactly the map is consumed', s.pos(e, st1) == PN(n)),
                                ('no output', O(st1) == OUT0), *s.same_levels(e, st0, st1), *s.lifecycle(e, st1)]
    def xensures(s, e, st0, st1, args): return [*s.lifecycle(e, st1), ('no output', O(st1) == OUT0)]
# ---- vectors --------------------------------------------------------------------------------------------
VO = F('output_after', BV64, BV64); ENCE = F('encode_element', BV64, BV64, BV64); EP = F('element_position', BV64, BV64); DECE = F('decoded_element', BV64, BV64, BV64); DECEE = F('decoded_element_end', BV64, BV64)
VS = 'dots::type::Vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, void>'; VT = '_ZTVN4dots4type6VectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEvEE'; VDT = '_ZTVN4dots4type10DescriptorINS0_6VectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEvEEEE'
class Elements(LoopInv):
    def __init__(s, c): super().__init__(s.go, 'elements'); s.c = c
    def go(s, e, st, fr, h, entry):
        c = s.c; k = st.ghost['~step']; n = to_bv(st.ghost['~size'], 64); out = [('elements visited so far', z3.ULE(k, n)), ('size', n == c.n), *c.sofar(e, st, k), *[(f'visiting level {i}', a == b) for i, (a, b) in enumerate(zip(c.lev(e, st), [to_bv(e.rd(entry, e.padd(entry, c.S, o), 64), 64) for o in (c.o_c, c.o_n)]))]]
        for p in s.phis(e, fr, h):
            v = fr.loc.get(p['id'])
            if isinstance(v, int) or (z3.is_bv(v) and v.size() == 64): v = to_bv(v, 64); out += [(f'phi{p["id"]} counts elements', v == k), (f'phi{p["id"]} counts remaining elements', v == n - k)]
        for rid in fr.allocas:
            r = st.regs.get(rid)
            for o, (sz, v) in sorted(r.cells.items()) if r is not None else []:
                if sz == 8 and (z3.is_bv(v) or isinstance(v, int)): v = to_bv(v, 64); out += [(f'{r.name}+{o} counts elements', v == k), (f'{r.name}+{o} counts remaining elements', v == n - k), (f'{r.name}+{o} is the size', v == n)]
        return out
class VectorValue(Dec):
    """visitTypeInternal of a vector value; the container is an arbitrary implementation of the Vector interface with abstract elements"""
    const = True
    def __init__(s, m): super().__init__(m.one(r'^void ' + re.escape(TV) + '::visitTypeInternal<' + ('true' if s.const else 'false') + r', dots::type::Typeless>\(')); s.name = ('encoding' if s.const else 'decoding') + ' of a vector'
    def setup(s, e, st):
        s.world(e, st); m = e.m; s.d = st.alloc('vector descriptor', size=None, lazy=True, origin='pre'); w = st.wregion(s.d.r); w.cells[m.field('dots::type::Descriptor<dots::type::Typeless>', 'm_type')] = (1, 17); w.cells[0] = (8, Ptr(e.gptr(st, VDT).r, 0, 16))
        s.vd = st.alloc('element descriptor', size=None, lazy=True, origin='pre'); s.v = st.alloc('vector', size=None, lazy=True, origin='pre'); st.wregion(s.v.r).cells[0] = (8, Ptr(e.gptr(st, VT).r, 0, 16))
        s.n = z3.BitVec('n_elements', 64) if s.const else ARRN(POS0); st.ghost['~size'] = z3.BitVec('old_size', 64); z = z3.BitVecVal(0, 64); st.ghost['~step'] = z; st.ghost['filled'] = 0
        s.el = st.alloc('elements', stride=1 << 20, length=None, origin='pre').r; s.x0 = z3.Array('elements0', BV64, BV64); st.wregion(s.el).arrs['val'] = s.x0
        if s.const: st.assume(st.ghost['~size'] == s.n); st.assume(VO(z) == put('array', OUT0, s.n)); st.assume(z3.ULT(s.n, 1 << 40))
        else: st.assume(EP(z) == ARREND(POS0))
        st.assume(z3.And(z3.ULT(s.lc, 1 << 31), z3.ULT(s.ln, 1 << 31)))
        e.loop_specs.insert(0, (lambda e_, x, fr, h: True, Elements(s))); return [s.S, s.v, s.d]
    def xs(s, st): return st.regs[s.el].arrs['val']
    def more(s, e):
        m = e.m
        def need(e_, st, p): e_.prove(st, isinstance(p, Ptr) and p.r == s.v.r and p.o == 0, 'ensures the vector itself is used')
        def size(e_, st, a): need(e_, st, a[0]); return st.ghost['~size']
        def at(e_, st, a): need(e_, st, a[0]); e_.prove(st, z3.ULT(to_bv(a[1], 64), to_bv(st.ghost['~size'], 64)), 'memory-safety: index within the vector'); return Ptr(s.el, norm(a[1]), 0)
        for k in m.find('^' + re.escape(VS) + r'::typelessSize\('): e.contracts[k] = VD(k, size)
        for k in m.find('^' + re.escape(VS) + r'::typelessAt\('): e.contracts[k] = VD(k, at)
        def vdesc(e_, st, a, f, ins): e_.prove(st, isinstance(a[0], Ptr) and a[0].r == s.d.r, "ensures the vector's own descriptor is used"); return s.vd
        e.model(r'^dots::type::Descriptor<dots::type::Vector<.*>>::valueDescriptor\(\)', vdesc, front=True)
        def fill(e_, st, a):
            e_.prove(st, isinstance(a[0], Ptr) and a[0].r == s.d.r, "ensures the vector's own descriptor is used"); need(e_, st, a[1]); n = to_bv(a[2], 64)
            e_.prove(st, z3.ULE(n, END - s.pos(e_, st)), 'ensures the storage allocated for an array is bounded by the available input'); st.ghost['filled'] += 1
            x = st.fork(); st.ghost['~size'] = n; c = z3.Const(fresh_name('elements'), s.x0.sort()); st.wregion(s.el).arrs['val'] = c; st.writes.add((s.el, 'seq', 'val'))
            return Outs([('exc', x, Exc('_ZTISt9bad_alloc', x.alloc('exc', size=64, lazy=True), tag='memory')), ('ret', st, None)])
        for k in m.find(r'^dots::type::Descriptor<dots::type::Vector<std::__cxx11::basic_string<.*::fill\('): e.contracts[k] = VD(k, fill)
        def element(e_, st, a):
            s.mine(e_, st, a[0], 0, 'visitor'); p, d = a[1], a[2]
            if not (isinstance(p, Ptr) and p.r == s.el): e_.prove(st, False, 'ensures elements of the vector are visited'); raise PathEnd()
            k = st.ghost['~step']; n = to_bv(st.ghost['~size'], 64); i = to_bv(p.i, 64); e_.prove(st, z3.And(i == k, z3.ULT(i, n)), 'ensures the elements are visited in order'); e_.prove(st, isinstance(d, Ptr) and d.r == s.vd.r, 'ensures elements are visited with the element descriptor')
            e_.prove(st, z3.UGT(s.lev(e_, st)[0 if s.const else 1], (s.lc, s.ln)[0 if s.const else 1]), 'ensures elements are visited below the top level')
            c = z3.BitVec(fresh_name('step'), 64)
            if s.const:
                x = st.fork(); setO(x, z3.BitVec(fresh_name('out'), 64)); x = ('exc', x, Exc(EXC, x.alloc('exc', size=64, lazy=True), tag='encoding')); st.assume(VO(k + 1) == ENCE(VO(k), z3.Select(s.xs(st), k))); setO(st, ENCE(O(st), z3.Select(s.xs(st), i)))
            else:
                x = s.raise_(e_, st); q = s.pos(e_, st); y = z3.Select(s.xs(st), i); wr(e_, st, s.el, 'val', i, DECE(z3.BitVecVal(0, 64), q)); st.assume(EP(k + 1) == DECEE(EP(k))); s.setpos(e_, st, DECEE(q))
            st.assume(c == k + 1); st.ghost['~step'] = c; return Outs([x, ('ret', st, None)])
        s.elem = element
    def verify(s, e):
        # the recursion on the elements is replaced by the contract; the outermost call is executed
        e.contracts[s.fn] = VD(s.fn, lambda e_, st, a: s.elem(e_, st, a))
        return super().verify(e)
    def sofar(s, e, st, k):
        if s.const: return [('output so far', O(st) == VO(k)), ('elements unchanged', s.xs(st) == s.x0)]
        j = z3.BitVec('j!vx', 64); return [('position after the elements so far', s.pos(e, st) == EP(k)), ('elements so far', z3.ForAll([j], z3.Implies(z3.ULT(j, k), z3.Select(s.xs(st), j) == DECE(z3.BitVecVal(0, 64), EP(j))), patterns=[z3.Select(s.xs(st), j)])), ('output unchanged', O(st) == OUT0)]
    def ensures(s, e, st0, st1, args, ret):
        r = [('all elements were visited', z3.And(st1.ghost['~step'] == s.n, to_bv(st1.ghost['~size'], 64) == s.n)), *s.sofar(e, st1, s.n), *s.same_levels(e, st0, st1)]
        return r if s.const else r + [('the vector got its size exactly once', z3.BoolVal(st1.ghost['filled'] == 1))]
class EncodeVector(VectorValue): const = True
class DecodeVector(VectorValue): const = False
# ---- entry points ---------------------------------------------------------------------------------------
SERI = F('serialized', BV64, B32, BV64); DESP = F('deserialized_end', BV64, B32, BV64); DESV = F('deserialized_valid', BV64, B32, B32); DESX = F('deserialized_values', BV64, B32, z3.ArraySort(BV64, BV64)); DESC = F('deserialized_con', BV64, B32, z3.ArraySort(BV64, z3.BoolSort()))
class Serialize(Ser):
    name = 'serialize(instance, properties)'; level = (0, None)
    def __init__(s, m): super().__init__('vh_serialize')
    def setup(s, e, st): s.level = (0, z3.BitVec('nonconst_level', 64)); s.world(e, st); s.incl = z3.BitVec('included', 32); return [s.S, s.A.obj, s.incl]
    def more(s, e):
        def enc(e_, st, a):
            s.mine(e_, st, a[0], 0, 'visitor'); e_.prove(st, isinstance(a[1], Ptr) and a[1].r == s.A.obj.r, 'ensures the given instance is written'); e_.prove(st, z3.UGE(s.lev(e_, st)[0], 1), 'requires a visit'); e_.prove(st, s.lev(e_, st)[0] == 1, 'ensures the instance is visited at the top level')
            x = st.fork(); setO(x, z3.BitVec(fresh_name('out'), 64)); e_.wr(x, e_.padd(x, s.S, s.o_c), 64, z3.BitVec(fresh_name('level'), 64)); setO(st, SERI(O(st), to_bv(a[2], 32)))
            return Outs([('exc', x, Exc(EXC, x.alloc('exc', size=64, lazy=True), tag='encoding')), ('ret', st, None)])
        k = e.m.one(r'^void ' + re.escape(TV) + r'::visitStructInternal<true, dots::type::Struct>\('); e.contracts[k] = VD(k, enc)
    def ensures(s, e, st0, st1, args, ret):
        return [('the instance with exactly the given properties is appended', O(st1) == SERI(OUT0, s.incl)), ('returns the number of bytes appended', to_bv(ret, 64) == LEN(O(st1)) - LEN(OUT0)), *s.same_levels(e, st0, st1), *s.untouched(e, st1)]
    def xensures(s, e, st0, st1, args): return [*s.same_levels(e, st0, st1), *s.untouched(e, st1)]
class Deserialize(Dec):
    name = 'deserialize(instance, properties)'
    def __init__(s, m): super().__init__('vh_deserialize')
    def setup(s, e, st): s.level = (z3.BitVec('const_level', 64), 0); s.world(e, st); s.incl = z3.BitVec('included', 32); return [s.S, s.A.obj, s.incl]
    def more(s, e):
        def dec(e_, st, a):
            s.mine(e_, st, a[0], 0, 'visitor'); e_.prove(st, isinstance(a[1], Ptr) and a[1].r == s.A.obj.r, 'ensures the given instance is read'); e_.prove(st, s.lev(e_, st)[1] == 1, 'ensures the instance is visited at the top level'); i = to_bv(a[2], 32)
            x = s.raise_(e_, st); s.havoc_inst(e_, x[1]); e_.wr(x[1], e_.padd(x[1], s.S, s.o_n), 64, z3.BitVec(fresh_name('level'), 64)); q = s.pos(e_, st); st.assume(inv(DESV(q, i), DESC(q, i))); s.set_inst(e_, st, DESV(q, i), DESX(q, i), DESC(q, i)); s.setpos(e_, st, DESP(q, i)); return Outs([x, ('ret', st, None)])
        k = e.m.one(r'^void ' + re.escape(TV) + r'::visitStructInternal<false, dots::type::Struct>\('); e.contracts[k] = VD(k, dec)
    def ensures(s, e, st0, st1, args, ret):
        return [('the instance is changed by exactly what is decoded at the read position with the given properties', s.inst_is(e, st1, DESV(POS0, s.incl), DESX(POS0, s.incl), DESC(POS0, s.incl))), ('the input is consumed up to the end of the instance', s.pos(e, st1) == DESP(POS0, s.incl)),
                ('returns the number of bytes this call consumed', to_bv(ret, 64) == s.ret(e, st1)), ('no output', O(st1) == OUT0), ('there was input', z3.ULT(POS0, END)), *s.same_levels(e, st0, st1), *s.lifecycle(e, st1)]
    def ret(s, e, st): return s.pos(e, st) - POS0
    def xensures(s, e, st0, st1, args): return [*s.same_levels(e, st0, st1), *s.lifecycle(e, st1), ('no output', O(st1) == OUT0)]
class SerializeProperty(EncodeStruct):
    name = 'serialize(property)'; above = 0
    def __init__(s, m): Ser.__init__(s, 'vh_serialize_property')
    proxy = Dec.proxy
    def setup(s, e, st): s.level = (0, z3.BitVec('nonconst_level', 64)); s.world(e, st); return [s.S, s.proxy(e, st)]
    def ensures(s, e, st0, st1, args, ret):
        w = z3.If(bit(s.A.valid0, s.j), ENC(OUT0, s.j, z3.Select(s.A.val0, s.j)), OUT0)
        return [('exactly the value of a valid property is appended', O(st1) == w), ('returns the number of bytes appended', to_bv(ret, 64) == LEN(O(st1)) - LEN(OUT0)), *s.same_levels(e, st0, st1), *s.untouched(e, st1)]
    def xensures(s, e, st0, st1, args): return [*s.same_levels(e, st0, st1), *s.untouched(e, st1)]
class DeserializeProperty(DecodeProperty):
    name = 'deserialize(property)'
    def __init__(s, m): Ser.__init__(s, 'vh_deserialize_property')
    def setup(s, e, st): s.level = (z3.BitVec('const_level', 64), 0); s.world(e, st); p = s.proxy(e, st); s.want = s.decode(e, st, s.j, ''); return [s.S, p]
    def ensures(s, e, st0, st1, args, ret): return super().ensures(e, st0, st1, args, ret) + [('returns the number of bytes this call consumed', to_bv(ret, 64) == s.pos(e, st1) - POS0), ('there was input', z3.ULT(POS0, END))]
ENCT = [t for t in SCALAR]; DECT = [t for t in SCALAR]
def contracts(m):
    return [EncodeStruct(m), Serialize(m), DecodeProperty(m), DecodeStruct(m), Deserialize(m)] + [EncodeValue(m, t) for t in ENCT] + [DecodeValue(m, t) for t in DECT] + [EncodeVector(m), DecodeVector(m), EnumLookup(m, 'tag'), EnumLookup(m, 'value'), SerializeProperty(m), DeserializeProperty(m)]
