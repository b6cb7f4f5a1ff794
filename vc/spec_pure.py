"""Contracts of value functions: integer arguments, integer result, no side effects."""
import z3
from .engine import *
from .contract import *
class Pure(Contract):
    """fn(x1: widths[0], ...) with `pre` (list of formulas) returns a value satisfying `post(args, ret)` (list of (name, formula))"""
    def __init__(s, fn, name, widths, post, pre=None, retw=32):
        super().__init__(fn); s.name = name; s.widths = widths; s.post = post; s.pre = pre; s.retw = retw
    def setup(s, e, st): return [z3.BitVec(f'x{i}', w) for i, w in enumerate(s.widths)]
    def requires(s, e, st, a): return [('precondition', c) for c in (s.pre(*a) if s.pre else [])]
    def ensures(s, e, st0, st1, a, r): return s.post(*a, (to_bool(r) if s.retw == 1 else to_bv(r, s.retw)))
    def frame(s, e, st0, a): return []
    def havoc(s, e, st, a): return z3.Bool(fresh_name('r')) if s.retw == 1 else z3.BitVec(fresh_name('r'), s.retw)
def eq(f): return lambda *a: [('result is exactly the specified value', a[-1] == f(*a[:-1]))]
