import z3
from vc.spec_pure import *
ID = "C05"
MODULES = {'propset': dict(srcs=['spec/propset.cpp'], roots='^vh_')}
DRIVER = dict(name='propset', src='drv/propset.cpp', lib=[], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])
TRUSTED = ['std::bitset::count is executed from its header (popcount intrinsic)']
bv = lambda v: z3.BitVecVal(v, 32)
bit = lambda x, i: z3.LShR(x, i) & 1
def member(x, k): return z3.Extract(k, k, x)
def setwise(f):
    """element-wise: for every property index k, membership in the result is f(membership in a, membership in b)"""
    def post(a, b, r): return [(f'membership of every property index is right', z3.And([(member(r, k) == 1) == f(member(a, k) == 1, member(b, k) == 1) for k in range(32)]))]
    return post
OR = lambda p, q: z3.Or(p, q); AND = lambda p, q: z3.And(p, q); SUB = lambda p, q: z3.And(p, z3.Not(q)); XOR = lambda p, q: z3.Xor(p, q); L = lambda p, q: p; R = lambda p, q: q
def subset(a, b): return z3.And([z3.Implies(member(a, k) == 1, member(b, k) == 1) for k in range(32)])
def same(a, b): return z3.And([member(a, k) == member(b, k) for k in range(32)])
def has(x, i): return z3.Or([z3.And(i == k, member(x, k) == 1) for k in range(32)])
def first_post(x, s, r): return [('is a member', has(x, r)), ('not before start', z3.UGE(r, s)), ('no earlier member', z3.And([z3.Implies(z3.And(z3.ULE(s, k), z3.UGT(r, k)), member(x, k) == 0) for k in range(32)]))]
def last_post(x, s, r): return [('is a member', has(x, r)), ('not after start', z3.ULE(r, s)), ('no later member', z3.And([z3.Implies(z3.And(z3.UGE(s, k), z3.ULT(r, k)), member(x, k) == 0) for k in range(32)]))]
def contracts():
    C = []
    for f, n, s in (('union', '+', OR), ('diff', '-', SUB), ('inter', '^', AND), ('union_assign', '+=', OR), ('diff_assign', '-=', SUB), ('inter_assign', '^=', AND), ('intersection', 'intersection', AND), ('intersect', 'intersect', AND), ('symdiff', 'symmetricDifference', XOR), ('symsub', 'symmetricSubtract', XOR),
                    ('assigned_union', '+= (assigned)', OR), ('assigned_diff', '-= (assigned)', SUB), ('assigned_inter', '^= (assigned)', AND), ('assigned_intersect', 'intersect (assigned)', AND), ('assigned_symsub', 'symmetricSubtract (assigned)', XOR),
                    ('rhs_after_union', '+= leaves right operand', R), ('lhs_after_union', '+ leaves left operand', L), ('lhs_after_diff', '- leaves left operand', L), ('lhs_after_inter', '^ leaves left operand', L), ('lhs_after_symdiff', 'symmetricDifference leaves left operand', L), ('lhs_after_intersection', 'intersection leaves left operand', L)):
        C.append(Pure('vh_' + f, 'PropertySet ' + n, [32, 32], setwise(s)))
    rel = lambda f: (lambda a, b, r: [('result', r == f(a, b))])
    for f, n, s in (('eq', '==', same), ('ne', '!=', lambda a, b: z3.Not(same(a, b))), ('le', '<=', subset), ('ge', '>=', lambda a, b: subset(b, a)), ('lt', '<', lambda a, b: z3.And(subset(a, b), z3.Not(same(a, b)))), ('gt', '>', lambda a, b: z3.And(subset(b, a), z3.Not(same(a, b))))):
        C.append(Pure('vh_' + f, 'PropertySet ' + n, [32, 32], rel(s), retw=1))
    C.append(Pure('vh_compl', 'PropertySet ~', [32], lambda a, r: [('complement', z3.And([member(r, k) != member(a, k) for k in range(32)]))]))
    C.append(Pure('vh_empty', 'PropertySet empty', [32], lambda a, r: [('no member', r == z3.And([member(a, k) == 0 for k in range(32)]))], retw=1))
    C.append(Pure('vh_bool', 'PropertySet bool', [32], lambda a, r: [('some member', r == z3.Or([member(a, k) == 1 for k in range(32)]))], retw=1))
    C.append(Pure('vh_value', 'PropertySet toValue', [32], lambda a, r: [('value', r == a)]))
    C.append(Pure('vh_none', 'PropertySet None', [], lambda r: [('empty', r == 0)]))
    C.append(Pure('vh_all', 'PropertySet All', [], lambda r: [('all', r == 0xffffffff)]))
    C.append(Pure('vh_count', 'PropertySet count', [32], lambda a, r: [('number of members', r == z3.Sum([z3.ZeroExt(31, member(a, k)) for k in range(32)]))]))
    C.append(Pure('vh_from_index', 'PropertySet FromIndex', [32], lambda i, r: [('exactly this member', z3.And([(member(r, k) == 1) == (i == k) for k in range(32)]))], pre=lambda i: [z3.ULT(i, 32)]))
    C.append(Pure('vh_first', 'PropertySet firstValid', [32], lambda x, r: first_post(x, bv(0), r), pre=lambda x: [x != 0]))
    C.append(Pure('vh_last', 'PropertySet lastValid', [32], lambda x, r: last_post(x, bv(31), r), pre=lambda x: [x != 0]))
    C.append(Pure('vh_first_from', 'PropertySet firstValid(start)', [32, 32], first_post, pre=lambda x, s: [z3.ULT(s, 32), z3.LShR(x, s) != 0]))
    C.append(Pure('vh_last_from', 'PropertySet lastValid(start)', [32, 32], last_post, pre=lambda x, s: [z3.ULT(s, 32), (x << (31 - s)) != 0]))
    return C
def tasks(mods): return [(c.name, 'propset', c.verify) for c in contracts()]
