"""Contracts of the layout of types: property offsets, and the conversion of struct descriptions into dynamic types, for every
description (any number of properties, names, tags, types) and every registry content (descriptors of any size and alignment)."""
import z3, os
from .engine import *
from .engine import live_allocas, Cut
from .contract import *
from .spec_pure import Pure
from .spec_struct import VD, MARK
from . import stdmodels as sm
B = lambda n, w=64: z3.BitVec(n, w)
c64 = lambda v: z3.BitVecVal(v, 64)
SIZE = z3.Array('type_size', BV64, BV64); ALIGN = z3.Array('type_alignment', BV64, BV64); KIND = z3.Array('type_kind', BV64, bvw(8))
NP = B('n_described'); MAXP = 1 << 20
FOUND = z3.Function('found_type', BV64, BV64); NONE = z3.Function('type_missing', BV64, z3.BoolSort())
_q = itertools.count()
def all_(n, f):
    j = B(f'j!l{next(_q)}'); return z3.ForAll([j], z3.Implies(z3.And(z3.ULT(j, n), MARK(j)), f(j)), patterns=[MARK(j)])
def all2(n, f):
    i, j = B(f'i!l{next(_q)}'), B(f'j!l{next(_q)}'); return z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, n), MARK(i), MARK(j)), f(i, j)), patterns=[z3.MultiPattern(MARK(i), MARK(j))])
def aligned(o, a): return o & (a - 1) == 0

class Offset(Contract):
    """PropertyOffset: smallest multiple of the alignment at or after the end of the previous property (alignment: power of two up to 4096)"""
    def __init__(s, fn, name, al=None): super().__init__(fn); s.al = al; s.name = name + (f' (alignment {al})' if al else '')
    def setup(s, e, st): return [s.al] + [B(f'x{i}') for i in range(1, len(e.m.funcs[s.fn]['args']) if 'args' in e.m.funcs[s.fn] else s.n)]
    def end(s, a): return to_bv(a[1], 64) + (to_bv(a[2], 64) if len(a) > 2 else 0)
    def requires(s, e, st, a):
        al = to_bv(a[0], 64); r = [('offsets far from overflow', z3.And([z3.ULT(to_bv(x, 64), 1 << 60) for x in a[1:]]))]
        return r + [('alignment is a power of two up to 4096', z3.And(al != 0, al & (al - 1) == 0, z3.ULE(al, 4096)))]
    def ensures(s, e, st0, st1, a, r):
        r = to_bv(r, 64); al = to_bv(a[0], 64)
        return [('aligned', aligned(r, al)), ('behind the previous property', z3.UGE(r, s.end(a))), ('minimal', z3.ULT(r - s.end(a), al))]
    def frame(s, e, st0, a): return []
    def havoc(s, e, st, a): return B(fresh_name('offset'))
def offsets(m):
    out = []
    for w, n, k in (('vh_off_first', 'PropertyOffset::First', 2), ('vh_off_next', 'PropertyOffset::Next', 3), ('vh_off_conv', 'PropertyOffset::operator size_t', 3)):
        for b in range(13):
            c = Offset(w, n, 1 << b); c.n = k; out.append(c)
    return out

class Convert(Contract):
    """DescriptorConverter::operator()(StructDescriptorData)"""
    throws = True
    name = 'DescriptorConverter::operator()(StructDescriptorData)'
    def setup(s, e, st):
        e.ematch = True; e.dyninit = r'::Metadata$'; m = e.m
        sm.install(e, vector_types=('dots::type::PropertyDescriptor', 'dots::types::StructPropertyData'))
        st.assume(z3.ULT(NP, MAXP)); j = B('j!ax')
        S, A = z3.Select(SIZE, j), z3.Select(ALIGN, j); al = z3.And(A != 0, A & (A - 1) == 0, z3.ULE(A, 4096), z3.ULT(S, 1 << 32))
        st.assume(z3.ForAll([j], al, patterns=[S])); st.assume(z3.ForAll([j], al, patterns=[A]))
        # registry and its types
        F = lambda c, n: m.field('dots::type::' + c, n); TL = 'Descriptor<dots::type::Typeless>'
        s.types = st.alloc('types', stride=1 << 16, length=None, origin='pre').r; w = st.wregion(s.types)
        w.arrs[F(TL, 'm_size')] = SIZE; w.arrs[F(TL, 'm_alignment')] = ALIGN; w.arrs[F(TL, 'm_type')] = KIND
        reg = st.alloc('registry', size=None, lazy=True, origin='pre'); conv = st.alloc('converter', size=8, origin='pre'); st.wregion(conv.r).cells[0] = (8, reg)
        # description
        D = st.alloc('description', size=m.clssize('dots::types::StructDescriptorData'), lazy=True, origin='pre'); s.D = D; o = m.field('dots::types::StructDescriptorData', 'properties')
        esz = m.clssize('dots::types::StructPropertyData'); q = sm.new_seq(e, st, esz, NP, 'described'); s.q = q.reg; w = st.wregion(q.reg); w.origin = 'pre'
        f = lambda n: m.field('dots::types::StructPropertyData', n); s.o = {n: f(n) for n in ('name', 'tag', 'isKey', 'type')}
        s.TAG = z3.Array('d_tag', BV64, bvw(32)); s.KEY = z3.Array('d_key', BV64, bvw(8)); s.VALID = z3.Array('d_valid', BV64, bvw(32))
        w.arrs[f('tag')] = s.TAG; w.arrs[f('isKey')] = s.KEY; w.arrs[8] = s.VALID
        sm.put_seq(e, st, e.padd(st, D, o + 8), q, 24, init=True)   # dots::Vector: vptr, std::vector
        # ghost: the property descriptors built so far
        s.pd = {n: F('PropertyDescriptor', n) for n in ('m_descriptor', 'm_set', 'm_offset', 'm_tag', 'm_isKey')}; psz = m.clssize('dots::type::PropertyDescriptor')
        def hook(e_, st_, r, off, T):
            if T['k'] == 'ptr' and isinstance(off, tuple) and off[1] == s.pd['m_descriptor']: return Ptr(s.types, norm(z3.Select(r.arrs['dk'], to_bv(off[0], 64))), 0)
        def newvec(e_, st_, a, f_, ins):
            q2 = sm.new_seq(e_, st_, psz, 0, 'properties'); w2 = st_.wregion(q2.reg); w2.hook = hook; s.pds = q2.reg
            for k, srt in (('dk', BV64), ('name', BV64), ('end', BV64), (s.pd['m_offset'], BV64), (s.pd['m_set'], bvw(32)), (s.pd['m_tag'], bvw(32)), (s.pd['m_isKey'], bvw(8))): w2.arrs[k] = z3.Const(fresh_name(f'pd.{k}'), z3.ArraySort(BV64, srt))
            sm.put_seq(e_, st_, a[0], q2, 24); return None
        V = r'std::vector<dots::type::PropertyDescriptor, std::allocator<dots::type::PropertyDescriptor>>::'
        e.model('^' + V + r'vector\(\)$', newvec, front=True)
        e.model(r'^std::__cxx11::basic_string<.*>::operator std::basic_string_view<.*>\(\) const$', lambda e_, st_, a, f_, ins: [z3.BitVec(fresh_name('len'), 64), a[0]], front=True)
        e.model(r'^dots::type::Property<.*>::descriptor\(\) const$', lambda e_, st_, a, f_, ins: st_.alloc('property descriptor', lazy=True, size=None, origin='pre'), front=True)
        e.model(r'^dots::type::PropertyDescriptor::name\[abi:cxx11\]\(\) const$|^dots::type::Descriptor<dots::type::Typeless>::name\[abi:cxx11\]\(\) const$', lambda e_, st_, a, f_, ins: st_.alloc('name', lazy=True, size=None, origin='pre'), front=True)
        e.model(r'^std::__cxx11::basic_string<char.*> std::operator\+<', sm.opaque_string, front=True)
        e.model(r'^std::__cxx11::basic_string<.*>::substr\(', sm.opaque_string, front=True)
        e.model(r'^std::__cxx11::basic_string<.*>::(find|size)\(', lambda e_, st_, a, f_, ins: z3.BitVec(fresh_name('pos'), 64), front=True)
        e.model(r'^std::__cxx11::basic_string<.*>::~basic_string\(\)', lambda e_, st_, a, f_, ins: None, front=True)
        e.model(r'^std::shared_ptr<.*>::~shared_ptr\(\)$', lambda e_, st_, a, f_, ins: None)
        exc = lambda st_: ('exc', st_, Exc('_ZTISt11logic_error', st_.alloc('exc', size=16)))
        s.early = None
        def find_struct(e_, st_, a, f_, ins):
            t = st_.fork(); r = Ptr(s.types, B('existing_type'), 0); t.ghost['early'] = True; return Outs([('ret', t, r), ('ret', st_, NULL)])
        def find(e_, st_, a, f_, ins):
            p = next((x for x in a[1:] if isinstance(x, Ptr)), None)
            if p is not None and p.r == s.q:
                i = to_bv(p.i, 64); e_.prove(st_, p.o == s.o['type'], 'the type is looked up by the type name of the property')
                t = st_.fork(); st_.assume(z3.Not(NONE(i))); t.assume(NONE(i)); return Outs([('ret', st_, Ptr(s.types, FOUND(i), 0)), ('ret', t, NULL)])
            return Outs([('ret', st_.fork(), NULL), ('ret', st_, Ptr(s.types, B(fresh_name('k')), 0))])
        e.model(r'^dots::type::Registry::findStructType\(', find_struct, front=True); e.model(r'^dots::type::Registry::findType\(', find, front=True)
        def regvec(e_, st_, a, f_, ins): t = st_.fork(); return Outs([('ret', st_, Ptr(s.types, B(fresh_name('k')), 0)), exc(t)])
        e.model(r'registerType<dots::type::Descriptor<dots::type::Vector<', regvec, front=True)
        e.model(r'::as<dots::type::Descriptor<dots::type::DynamicStruct>>', lambda e_, st_, a, f_, ins: Outs([('ret', st_.fork(), NULL), ('ret', st_, a[0])]), front=True)
        e.model(r'::to<dots::type::StructDescriptor, false>', lambda e_, st_, a, f_, ins: a[0], front=True)
        o_area = F('StructDescriptor', 'm_areaOffset'); AREA = z3.Array('type_area_offset', BV64, BV64); st.wregion(s.types).arrs[o_area] = AREA
        def make(e_, st_, a, f_, ins):
            sz = to_bv(e_.rd(st_, a[-1], 64), 64); p = a[1:]
            k = st_.ghost.get('static'); k = next((x.i for x in a if isinstance(x, Ptr) and x.r == s.types), None)
            if k is None: raise Unsupported('make_descriptor arguments')
            k = to_bv(k, 64); need = z3.Select(SIZE, k) - z3.Select(AREA, k)
            st_.assume(z3.ULE(z3.Select(AREA, k), z3.Select(SIZE, k)))
            e_.prove(st_, z3.UGE(sz, need + m.clssize('dots::type::DynamicStruct')), 'a dynamic element of a static struct type has room for the whole property area')
            e_.prove(st_, z3.ULT(sz, 1 << 40), 'dynamic element size does not wrap')
            return None
        e.model(r'make_descriptor<dots::type::Descriptor<dots::type::DynamicStruct>, .*unsigned char, ', make, front=True)
        e.model(r'^std::__shared_ptr_access<dots::type::Descriptor<dots::type::DynamicStruct>.*operator\*\(\) const$', lambda e_, st_, a, f_, ins: st_.alloc('dynamic element type', lazy=True, size=None), front=True)
        def emplace(e_, st_, a, f_, ins):
            vec, d, name, tag, key, off = a; q2 = sm.get_seq(e_, st_, vec, psz); n = to_bv(q2.len, 64)
            if not (isinstance(d, Ptr) and d.r == s.types): raise Unsupported('emplace_back of unknown descriptor')
            T, K, O = to_bv(e_.rd(st_, tag, 32), 32), to_bv(e_.rd(st_, key, 8), 8), to_bv(e_.rd(st_, off, 64), 64)
            e_.prove(st_, z3.ULT(T, 32), 'call of PropertyDescriptor: requires a tag below 32')
            pass
            e_.prove(st_, isinstance(name, Ptr) and name.r == s.q and name.o == s.o['name'], 'the property is created with the name of a described property')
            w2 = st_.wregion(q2.reg); S = lambda k, v: w2.arrs.__setitem__(k, z3.Store(w2.arrs[k], n, v))
            E = B(fresh_name('end')); st_.assume(E == O + z3.Select(SIZE, to_bv(d.i, 64))); S('end', E)   # ghost: where the property ends
            S('dk', to_bv(d.i, 64)); S('name', to_bv(name.i, 64)); S(s.pd['m_offset'], O); S(s.pd['m_tag'], T); S(s.pd['m_isKey'], K); S(s.pd['m_set'], z3.BitVecVal(1, 32) << T)
            for k in list(w2.arrs): st_.writes.add((q2.reg, 'seq', k))
            for x in (n, n - 1): st_.assume(MARK(x))
            sm.set_len(e_, st_, vec, q2, n + 1); return Ptr(q2.reg, norm(n), 0)
        e.model(V + r'emplace_back<', emplace, front=True)
        def sink(e_, st_, a, f_, ins):
            _, name, fl, vec, sz = a; q2 = sm.get_seq(e_, st_, vec, psz); n = to_bv(q2.len, 64); s.sunk = True; R = st_.regs[q2.reg]
            pass
            e_.prove(st_, isinstance(name, Ptr) and name.r == s.D.r and name.o == m.field('dots::types::StructDescriptorData', 'name'), 'ensures the type has the described name')

            e_.prove(st_, n == NP, 'ensures every described property becomes a property')
            for nm, c in s.facts(st_, n, R, True): e_.prove(st_, c, 'ensures ' + nm)
            size = to_bv(e_.rd(st_, sz, 64), 64); base = m.clssize('dots::type::DynamicStruct')
            e_.prove(st_, z3.UGE(size, base + 4), 'ensures the instance has room for the valid mask')
            e_.prove(st_, z3.And(z3.ULT(size, 1 << 60), z3.ULT(base, size), all_(n, lambda j: z3.ULE(s.end(R, j), size - base))), 'ensures every property lies inside of the instance')
            flg = to_bv(e_.rd(st_, fl, 8), 8)
            for nm, c in s.flags(e_, st_, flg): e_.prove(st_, c, f'ensures {nm} as described')
            t = st_.fork(); return Outs([('ret', st_, Ptr(s.types, B('created_type'), 0)), exc(t)])
        e.model(r'registerType<dots::type::Descriptor<dots::type::DynamicStruct>, ', sink, front=True)
        for n, k in (('First', 2), ('Next', 3)):
            fn = m.one(r'^dots::type::PropertyOffset::' + n + r'\('); c = Offset(fn, 'PropertyOffset::' + n); c.n = k; e.contracts[fn] = c
        s.flags(e, st, B('unused', 8)); st.wregion(s.types).arrs[80] = z3.Array('type_80', BV64, bvw(8))   # read once before paths fork
        inv = LoopInv(s.cands, 'description'); inv.peel = 1; own = s.fn_body(m)
        scope = set(st.regs); inv.merge = (len(st.pc), scope)
        inv.cut = Cut(len(st.pc), scope, s.flagfacts, lambda r, o, sz, v: sz == 1 and r.origin not in ('pre', 'global'))
        e.loop_specs.append((lambda e_, st_, fr, h: fr.fn == own, inv))
        return [conv, D]
    def flags(s, e, st, flg):
        m = e.m; fo = m.field('dots::types::StructDescriptorData', 'flags'); dv = to_bv(e.rd(st, Ptr(s.D.r, 0, 8), 32), 32); fv = to_bv(e.rd(st, Ptr(s.D.r, 0, fo + 8), 32), 32); out = []
        for bit, (nm, tag) in enumerate((('cached', 1), ('internal', 2), ('persistent', 3), ('cleanup', 4), ('local', 5), ('substructOnly', 6))):
            b = to_bv(e.rd(st, Ptr(s.D.r, 0, fo + m.field('dots::types::DotsStructFlags', nm)), 8), 8)
            out.append((f'flag {nm}', (z3.LShR(flg, bit) & 1 == 1) == z3.And(dv & (1 << 5) != 0, fv & (1 << tag) != 0, b & 1 == 1)))
        return out + [('no other flag', z3.LShR(flg, 6) == 0)]
    def flagfacts(s, e, st, fr):
        """the local variable that holds the flags (found by what it holds)"""
        cells = getattr(s, 'flagcell', None)
        if cells is None:
            for rid in fr.allocas:
                for o, (sz, v) in sorted(st.regs[rid].cells.items()):
                    if sz == 1 and z3.is_bv(v) or is_conc(v):
                        if sz == 1 and all(e.must(st, c) for _, c in s.flags(e, st, to_bv(v, 8))): s.flagcell = cells = (rid, o); break
                if cells: break
        if cells is None: return []
        return s.flags(e, st, to_bv(st.regs[cells[0]].cells[cells[1]][1], 8))
    def fn_body(s, m): return m.one(r'^dots::io::DescriptorConverter::operator\(\)\(dots::types::StructDescriptorData const&\) const$')
    def end(s, R, j): return z3.Select(R.arrs['end'], j)
    def facts(s, st, n, R, final=False):
        off = lambda j: z3.Select(R.arrs[s.pd['m_offset']], j); dk = lambda j: z3.Select(R.arrs['dk'], j); set_ = lambda j: z3.Select(R.arrs[s.pd['m_set']], j)
        tag = lambda j: z3.Select(R.arrs[s.pd['m_tag']], j)
        out = [('every property is aligned for its type', all_(n, lambda j: aligned(off(j), z3.Select(ALIGN, dk(j))))), ('ghost end', all_(n, lambda j: z3.And(s.end(R, j) == off(j) + z3.Select(SIZE, dk(j)), z3.ULE(off(j), s.end(R, j))))), ('no property overlaps the valid mask', all_(n, lambda j: z3.UGE(off(j), 4))),
               ('properties do not overlap', all2(n, lambda i, j: z3.ULE(s.end(R, i), off(j)))),
               ('different properties have different tags', all2(n, lambda i, j: tag(i) != tag(j))),
               ('tag, key, name and set are the described ones', all_(n, lambda j: z3.And(tag(j) == z3.Select(s.TAG, j), z3.Select(R.arrs[s.pd['m_isKey']], j) == z3.Select(s.KEY, j), z3.Select(R.arrs['name'], j) == j, z3.ULT(tag(j), 32), set_(j) == z3.BitVecVal(1, 32) << tag(j)))),
               ('the type is the described one', all_(n, lambda j: z3.Or(NONE(j), dk(j) == FOUND(j))))]
        return out
    def cands(s, e, st, fr, h, entry):
        R = st.regs.get(getattr(s, 'pds', None)); out = []
        if R is None: return out
        n = to_bv(R.length, 64); last = n - 1; st.assume(MARK(last)) if st is not entry else None
        out += s.facts(st, n, R) + s.flagfacts(e, st, fr)
        out += [('at least one', n != 0), ('not more than described', z3.ULE(n, NP)), ('ends grow', all_(n, lambda j: z3.ULE(s.end(R, j), s.end(R, last)))), ('ends are bounded', z3.ULT(s.end(R, last), n << 34))]
        vals = []
        for i in e.m.funcs[fr.fn]['blocks'][h]['i']:
            if i['op'] != 'phi': break
            vals.append((f'phi{i["id"]}', fr.loc.get(i['id']), (e.T[i['t']].get('w') or 64) // 8))
        live = {fr.loc[a].r for a in live_allocas(e.m, fr.fn, h) if a in fr.loc}
        for rid in fr.allocas:
            r = st.regs.get(rid)
            if r is None or rid not in live: continue
            for o, (sz, v) in sorted(r.cells.items()): vals.append((f'{r.name}+{o}', v, sz))
        for nm, v, sz in vals:
            if isinstance(v, Ptr) and v.r == s.q: out += [(nm + ' counts', to_bv(v.i, 64) == n)]
            elif isinstance(v, Ptr) and v.r == s.pds and v.o == 0: out.append((nm + ' is the last', to_bv(v.i, 64) == last))
            elif isinstance(v, (Ptr, Undef, sm.Seq, FnPtr, Tok, tuple, list)) or v is None: continue
            elif sz == 4 and (is_conc(v) or z3.is_bv(v)): out.append((nm + ' holds every tag', all_(n, lambda j: to_bv(v, 32) & z3.Select(R.arrs[s.pd['m_set']], j) != 0)))
            elif sz == 8 and (is_conc(v) or z3.is_bv(v)):
                x = to_bv(v, 64); out += [(nm + ' is a power of two', z3.And(x != 0, x & (x - 1) == 0, z3.ULE(x, 4096))), (nm + ' at least every alignment', all_(n, lambda j: z3.ULE(z3.Select(ALIGN, z3.Select(R.arrs['dk'], j)), x)))]
        return out
    def ensures(s, e, st0, st1, a, r):
        if st1.ghost.get('early'): return [('an existing type is returned', isinstance(r, Ptr) and r.r == s.types and z3.is_bv(r.i) and str(r.i) == 'existing_type')]
        return [('the registered type is returned', isinstance(r, Ptr) and r.r == s.types and z3.is_bv(r.i) and str(r.i) == 'created_type')]
    def xensures(s, e, st0, st1, a): return [('nothing is returned', True)]
