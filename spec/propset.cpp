// Instantiates the real PropertySet / PropertyOffset operations for the VC generator (no logic of its own).
#include <string>
#include "dots/type/PropertySet.h"
#include "dots/type/PropertyOffset.h"
using dots::type::PropertySet; using dots::type::PropertyOffset;
static PropertySet S(uint32_t v) { return PropertySet{ v }; }
#define B2(N, E) extern "C" uint32_t vh_##N(uint32_t x, uint32_t y) { PropertySet a = S(x), b = S(y); return (E).toValue(); }
#define R2(N, E) extern "C" bool vh_##N(uint32_t x, uint32_t y) { PropertySet a = S(x), b = S(y); return E; }
B2(union, a + b) B2(diff, a - b) B2(inter, a ^ b) B2(union_assign, a += b) B2(diff_assign, a -= b) B2(inter_assign, a ^= b)
B2(intersection, a.intersection(b)) B2(intersect, a.intersect(b)) B2(symdiff, a.symmetricDifference(b)) B2(symsub, a.symmetricSubtract(b))
B2(rhs_after_union, (a += b, b)) B2(lhs_after_union, (a + b, a)) B2(lhs_after_diff, (a - b, a)) B2(lhs_after_inter, (a ^ b, a)) B2(lhs_after_symdiff, (a.symmetricDifference(b), a)) B2(lhs_after_intersection, (a.intersection(b), a))
B2(assigned_union, ((a += b), a)) B2(assigned_diff, ((a -= b), a)) B2(assigned_inter, ((a ^= b), a)) B2(assigned_intersect, (a.intersect(b), a)) B2(assigned_symsub, (a.symmetricSubtract(b), a))
R2(eq, a == b) R2(ne, a != b) R2(lt, a < b) R2(gt, a > b) R2(le, a <= b) R2(ge, a >= b)
extern "C" uint32_t vh_compl(uint32_t x) { return (~S(x)).toValue(); }
extern "C" bool vh_empty(uint32_t x) { return S(x).empty(); }
extern "C" bool vh_bool(uint32_t x) { return bool(S(x)); }
extern "C" uint32_t vh_count(uint32_t x) { return uint32_t(S(x).count()); }
extern "C" uint32_t vh_first(uint32_t x) { return S(x).firstValid(); }
extern "C" uint32_t vh_first_from(uint32_t x, uint32_t start) { return S(x).firstValid(start); }
extern "C" uint32_t vh_last(uint32_t x) { return S(x).lastValid(); }
extern "C" uint32_t vh_last_from(uint32_t x, uint32_t start) { return S(x).lastValid(start); }
extern "C" uint32_t vh_from_index(uint32_t i) { return PropertySet::FromIndex(i).toValue(); }
extern "C" uint32_t vh_value(uint32_t x) { return S(x).toValue(); }
extern "C" uint32_t vh_none() { return PropertySet{}.toValue() | PropertySet{ PropertySet::None }.toValue(); }
extern "C" uint32_t vh_all() { return PropertySet{ PropertySet::All }.toValue(); }
extern "C" size_t vh_off_first(size_t al, size_t init) { return PropertyOffset::First(al, init).offset(); }
extern "C" size_t vh_off_next(size_t al, size_t prev, size_t size) { return PropertyOffset::Next(al, prev, size).offset(); }
extern "C" size_t vh_off_conv(size_t al, size_t prev, size_t size) { return PropertyOffset::Next(al, prev, size); }
