import z3
from vc.engine import *
from vc import stdmodels as sm, spec_cbor as sc
from vc.contract import *

MODULES = {'cbor': dict(srcs=['spec/cbor.cpp'], roots='^vh_|SerializerException$')}
DRIVER = dict(name='cbor', src='drv/cbor.cpp', lib=['lib/src/serialization/formats/CborReader.cpp', 'lib/src/serialization/SerializerException.cpp'], flags=['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined'])
TRUSTED = ['std::vector<uint8_t>, std::string, std::array (abstract sequence contracts in vc/stdmodels.py)', 'fmt formatting (opaque text)', 'allocation succeeds; object sizes below 2^40 bytes']
ASSUME = ['heap allocation does not fail', 'std::vector/std::string behave as sequences (assumed contract)', 'the text of exception messages is not modelled', 'std::ldexp(x, n) is the correctly rounded x*2^n for -1022 <= n <= 1023']

def configure(e):
    sm.install(e)
    def serexc(e, st, a, f, ins):
        p, n = a[-2], a[-1]
        r = st.regs[p.r]
        e.prove(st, z3.And(z3.ULE(to_bv(p.i, 64), to_bv(r.length, 64)), z3.ULE(to_bv(n, 64), to_bv(r.length, 64) - to_bv(p.i, 64))), 'memory-safety: bytes handed to the exception lie inside the input')
        return None
    e.model(r'^dots::serialization::SerializerException::SerializerException', serexc)

def writer_tasks(mods): return [(c.name, 'cbor', c.verify) for c in sc.writer_contracts(mods['cbor'])]
def reader_tasks(mods): return [(c.name, 'cbor', c.verify) for c in sc.reader_contracts(mods['cbor'])]
def skip_task(mods):
    c = sc.SkipContract(mods['cbor'])
    def go(e): c.install(e); c.verify(e)
    return [(c.name, 'cbor', go)]

def lemma(w, r, kind):
    """round trip: writer postcondition |- reader precondition for acceptance, and reader postcondition |- same value"""
    def go(e):
        e.cur = f'lemma: read after write {w.name}'
        st = State(e)
        wr = st.alloc('writer', size=64, lazy=True)
        args = w.mkargs(e, st)
        hl, hb, plen, pb = w.enc(e, st, args)
        A = z3.Array('wire', BV64, bvw(8)); c = z3.BitVec('at', 64); E = z3.BitVec('end', 64)
        st.assume(z3.ULE(c, E)); st.assume(z3.ULE(E, 1 << 40)); st.assume(z3.ULE(hl + plen, E - c))
        hs = z3.simplify(hl); mx = hs.as_long() if z3.is_bv_value(hs) else 9
        for i in range(mx): st.assume(z3.Implies(z3.ULT(sc.V64(i), hl), z3.Select(A, c + i) == hb(i)))
        j = z3.BitVec('j!r', 64)
        if pb is not None: st.assume(z3.Implies(z3.ULT(j, plen), z3.Select(A, c + hl + j) == pb(j)))
        e.cover(st, e.cur)
        h = sc.Head(A, c, E); ok, nxt, rel = r.dec(h)
        e.prove(st, ok, e.cur + ': accepted'); e.prove(st, nxt == c + hl + plen, e.cur + ': consumes exactly the written bytes')
        if rel is None: return
        rargs = [None]; v = None
        if r.out_bits == 'str':
            o = st.alloc('outstr', size=32); q = sm.new_seq(e, st, 1, z3.BitVec('outlen', 64), 'ostr'); st.wregion(q.reg).arrs[0] = z3.Array('ostr', BV64, bvw(8)); sm.put_seq(e, st, o, q, 32, init=True); rargs.append(o)
        elif r.out_bits == 128:
            o = st.alloc('out', size=16)
            for k in range(16): st.wregion(o.r).cells[k] = (1, z3.BitVec(f'o{k}', 8))
            rargs.append(o)
        else: v = z3.BitVec('result', r.out_bits if isinstance(r.out_bits, int) else 64)
        for n, f in rel(e, st, rargs, v): st.assume(f)
        e.cover(st, e.cur + ' (with result)')
        if r.out_bits == 'str':
            p, n = args[0], to_bv(args[1], 64)
            e.prove(st, z3.BitVec('outlen', 64) == n, e.cur + ': same length')
            e.prove(st, z3.Implies(z3.ULT(j, n), z3.Select(z3.Array('ostr', BV64, bvw(8)), j) == z3.Select(st.regs[p.r].arrs[0], to_bv(p.i, 64) + j)), e.cur + ': same content')
        elif r.out_bits == 128:
            for k in range(16): e.prove(st, z3.BitVec(f'o{k}', 8) == to_bv(st.regs[args[0].r].cells[k][1], 8), e.cur + f': same byte {k}')
        else:
            x = args[0]
            if z3.is_bool(x): e.prove(st, (z3.Extract(0, 0, v) == 1) == x, e.cur + ': same value')
            else: e.prove(st, v == to_bv(x, v.size()), e.cur + ': same value')
    return ('lemma read(write(' + w.name + '))', 'cbor', go)
def lemmas(mods):
    W = sc.writer_contracts(mods['cbor']); R = sc.reader_contracts(mods['cbor'])
    return [lemma(w, r, None) for w, r in zip(W, R)]
