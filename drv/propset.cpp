// Run-time contract check of the real PropertySet / PropertyOffset against std::set arithmetic.
#include "common.h"
#include <set>
#include <algorithm>
#include "dots/type/PropertySet.h"
#include "dots/type/PropertyOffset.h"
using dots::type::PropertySet; using dots::type::PropertyOffset;
using Set = std::set<unsigned>;
static Set el(uint32_t v) { Set s; for (unsigned k = 0; k < 32; ++k) if (v >> k & 1u) s.insert(k); return s; }
static Set el(PropertySet p) { return el(p.toValue()); }
static uint32_t gen() { using namespace vd; switch (below(6)) { case 0: return 0; case 1: return ~0u; case 2: return 1u << below(32); case 3: return uint32_t(rnd()) & uint32_t(rnd()) & uint32_t(rnd()); case 4: { uint32_t x = 0; for (unsigned n = unsigned(below(4)); n--;) x |= 1u << below(32); return x; } default: return uint32_t(rnd()); } }
#define CK(E, K) vd::check(E, K, #E)
static void one(uint32_t x, uint32_t y)
{
    vd::setCase("a=" + std::to_string(x) + " b=" + std::to_string(y)); vd::count();
    PropertySet a{ x }, b{ y }; Set A = el(x), B = el(y), U, I, D, X;
    std::set_union(A.begin(), A.end(), B.begin(), B.end(), std::inserter(U, U.end())); std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::inserter(I, I.end()));
    std::set_difference(A.begin(), A.end(), B.begin(), B.end(), std::inserter(D, D.end())); std::set_symmetric_difference(A.begin(), A.end(), B.begin(), B.end(), std::inserter(X, X.end()));
    CK(el(a + b) == U, "union"); CK(el(a - b) == D, "difference"); CK(el(a ^ b) == I, "intersection"); CK(el(a.intersection(b)) == I, "intersection"); CK(el(a.symmetricDifference(b)) == X, "symdiff");
    CK(el(a) == A && el(b) == B, "operands");
    { PropertySet c = a; PropertySet& r = (c += b); CK(el(c) == U && &r == &c, "union"); } { PropertySet c = a; PropertySet& r = (c -= b); CK(el(c) == D && &r == &c, "difference"); } { PropertySet c = a; PropertySet& r = (c ^= b); CK(el(c) == I && &r == &c, "intersection"); }
    { PropertySet c = a; PropertySet& r = c.intersect(b); CK(el(c) == I && &r == &c, "intersection"); } { PropertySet c = a; PropertySet& r = c.symmetricSubtract(b); CK(el(c) == X && &r == &c, "symdiff"); }
    bool sub = std::includes(B.begin(), B.end(), A.begin(), A.end()), sup = std::includes(A.begin(), A.end(), B.begin(), B.end());
    CK((a == b) == (A == B), "equal"); CK((a != b) == (A != B), "equal"); CK((a <= b) == sub, "subset"); CK((a >= b) == sup, "subset"); CK((a < b) == (sub && A != B), "subset"); CK((a > b) == (sup && A != B), "subset");
    CK(el(~a).size() == 32 - A.size(), "complement"); for (unsigned k : el(~a)) CK(!A.count(k), "complement");
    CK(a.empty() == A.empty() && bool(a) == !A.empty() && a.count() == A.size(), "count");
    if (!A.empty()) { CK(a.firstValid() == *A.begin(), "firstValid"); CK(a.lastValid() == *A.rbegin(), "lastValid"); }
    for (unsigned s = 0; s < 32; ++s)
    {
        auto lo = A.lower_bound(s); if (lo != A.end()) CK(a.firstValid(s) == *lo, "firstValid");
        auto hi = A.upper_bound(s); if (hi != A.begin()) CK(a.lastValid(s) == *std::prev(hi), "lastValid");
    }
    std::string t = a.toString(); CK(t.size() == 32, "toString"); for (unsigned k = 0; k < 32; ++k) CK((t[31 - k] == '1') == (A.count(k) != 0), "toString");
}
int main(int argc, char** argv)
{
    vd::init(argc, argv);
    {
        for (unsigned k = 0; k < 32; ++k) { vd::setCase("index=" + std::to_string(k)); CK(el(PropertySet::FromIndex(k)) == Set{ k }, "FromIndex"); for (unsigned j = 0; j < 32; ++j) { one(1u << k, 1u << j); one(1u << k | 1u << j, 1u << j); one(~(1u << k), 1u << j); } }
        CK(el(PropertySet{ PropertySet::All }).size() == 32, "All"); CK(el(PropertySet{ PropertySet::None }).empty() && el(PropertySet{}).empty(), "None");
        for (int n = 0; n < (vd::thorough() ? 2000000 : 60000); ++n) one(gen(), gen());
    }
    return vd::done();
}
