"""Function contracts: verified on the real IR, used at call sites in place of the body."""
import time, z3
from .engine import *

class Contract:
    name = '?'
    throws = False                 # may throw (type-unspecific) -> xensures must hold
    exc_ti = '_ZTISt13runtime_error'
    def __init__(s, fn=None): s.fn = fn
    # --- to be provided
    def setup(s, e, st): raise NotImplementedError            # -> args ; establishes `requires` by construction/assumption
    def requires(s, e, st, args): return []
    def ensures(s, e, st0, st1, args, ret): return []
    def xensures(s, e, st0, st1, args): return []
    def havoc(s, e, st, args): return None                    # havoc `modifies`; returns fresh return value
    def frame(s, e, st0, args): return None                   # list of (rid, lo, hi) allowed writes; None = unchecked
    # --- verification of the body
    def verify(s, e):
        e.cur = s.name
        st = State(e)
        args = s.setup(e, st)
        for n, c in s.requires(e, st, args): st.assume(c)
        e.cover(st, s.name + ': requires satisfiable')
        st0 = st.snapshot()
        n0 = len(e.obls)
        s.entry = st0; s.entry_args = args
        own = e.contracts.get(s.fn)
        f = e.m.funcs[s.fn]
        st.writes = set()
        finals = e.run(st, s.fn, args)
        kinds = set()
        for x in finals:
            k, v = x.done
            kinds.add(k)
            if k == 'ret':
                for n, c in s.ensures(e, st0, x, args, v): e.prove(x, c, f'{s.name}: ensures {n}')
                e.cover_soft = True
            elif k == 'exc':
                if not s.throws: e.prove(x, False, f'{s.name}: does not throw ({v})')
                else:
                    for n, c in s.xensures(e, st0, x, args): e.prove(x, c, f'{s.name}: on exception {n}')
            else: e.prove(x, False, f'{s.name}: does not terminate the process')
            fr = s.frame(e, st0, args)
            if fr is not None:
                bad = []
                for (rid, k2, n2) in x.writes:
                    if rid in st0.regs and st0.regs[rid].origin != 'heapfree':
                        ok = any(rid == r and (lo is None or (k2 != 'seq' and lo <= k2 and k2 + n2 <= hi)) for r, lo, hi in fr)
                        if not ok: bad.append((st0.regs[rid].name, k2, n2))
                e.obls.append(Obligation(f'{s.name}: frame (nothing else is modified)', 'proved' if not bad else 'refuted', where=str(bad[:3]) if bad else s.name, backend='write-set'))
        if 'ret' not in kinds and not getattr(s, 'never_returns', False):
            e.obls.append(Obligation(f'cover:{s.name}: some execution returns', 'vacuous', where=s.name))
        if not finals:
            e.obls.append(Obligation(f'cover:{s.name}: terminates on some path', 'vacuous', where=s.name))
        return finals
    # --- use at a call site
    def apply(s, e, st, args):
        for n, c in s.requires(e, st, args): e.prove(st, c, f'call of {s.name}: requires {n}')
        st0 = st.snapshot()
        outs = []
        if s.throws:
            t = st.fork()
            s.havoc(e, t, args)
            for n, c in s.xensures(e, st0, t, args): t.assume(c)
            if e.feasible(t): outs.append(('exc', t, Exc(s.exc_ti, t.alloc('exc', size=64, lazy=True), tag=s.name)))
        r = s.havoc(e, st, args)
        for n, c in s.ensures(e, st0, st, args, r): st.assume(c)
        if getattr(s, 'never_returns', False): return Outs(outs)
        if s.throws and not e.feasible(st): return Outs(outs)
        outs.append(('ret', st, r))
        return Outs(outs)

def view(e, st, fn, args):
    """run an (observer) function of the code under verification on a copy of the state; single path expected"""
    t = st.fork(); t.frames = []; t.done = None
    e.quiet += 1
    try: fin = e.run(t, fn, args)
    finally: e.quiet -= 1
    rets = [x for x in fin if x.done[0] == 'ret']
    if len(rets) != 1 or len(fin) != 1: raise Unsupported('view ' + fn)
    return rets[0].done[1], rets[0]
