// Run-time contract check of the struct value operations on static, type-erased and dynamic instances against an independent model.
#include "values.h"
using namespace vm;
#define CK(E, K) vd::check(E, K, #E)
static long g_live = 0;
void* operator new(size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc{}; ++g_live; return p; }
void operator delete(void* p) noexcept { if (p) { --g_live; std::free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --g_live; std::free(p); } }
static uint32_t mask() { switch (below(5)) { case 0: return ~0u; case 1: return 0; case 2: return uint32_t(rnd()); case 3: return uint32_t(rnd() | rnd()); default: return 1u << below(32); } }
static Val dflt(const Descriptor<>& d) { Val v; v.t = d.type(); if (v.t == Type::uuid) v.s.assign(16, '\0'); return v; }
static std::map<unsigned, const PropertyDescriptor*> byTag(const StructDescriptor& sd) { std::map<unsigned, const PropertyDescriptor*> m; for (auto& pd : sd.propertyDescriptors()) m[tagBit(pd)] = &pd; return m; }
static void mergeInto(const StructDescriptor& sd, Props& a, const Props& b, uint32_t incl)
{
    auto m = byTag(sd);
    for (auto& [k, v] : b) if (incl >> k & 1u) { if (v.t == Type::Struct) { auto& x = a[k]; x.t = Type::Struct; mergeInto(static_cast<const StructDescriptor&>(m[k]->valueDescriptor()), x.p, v.p, ~0u); } else a[k] = v; }
}
// Ops: S = Struct (type erased), D = DynamicStruct, T = static type; construction / destruction through Mk
template <class X> struct Holder { X x; template <class... A> Holder(A&&... a) : x(std::forward<A>(a)...) {} };
template <class X, class Mk> static void round(const StructDescriptor& sd, Mk mk, const char* kind)
{
    uint32_t in = mask(); unsigned fa = unsigned(below(3)) * 50, fb = unsigned(below(3)) * 50; Props a = gen(sd, 0, fa), b = gen(sd, 0, fb);
    if (chance(60)) for (auto& [k, v] : a) if (chance(80)) b[k] = v;     // many equal properties
    static const std::vector<unsigned> opsV{ 0, 1, 2, 3, 4, 5, 13, 14, 14, 15, 16 }, opsC{ 6, 7, 8, 9, 10, 11, 12, 17, 18 }; auto& opl = vd::pid == "C07" ? opsC : opsV; unsigned op = opl[below(opl.size())]; bool alias = chance(10);
    setCase(std::string(kind) + " " + sd.name() + " op " + std::to_string(op) + (alias ? " aliased" : "") + " included " + std::to_string(in) + " a " + str(a) + " b " + str(alias ? a : b)); count(!a.empty() || !b.empty());
    PropertySet I{ in }; auto bit = [&](unsigned k) { return in >> k & 1u; }; auto O = order(sd);
    {
        auto ha = mk(), hb = mk(); auto& A = *ha; auto& B0 = *hb; put(A, a); put(B0, b); auto& B = alias ? A : B0; if (alias) b = a;
        Props xa = a, xb = b; const auto& cB = B; const auto& cA = A; bool checkB = true;
        auto only = [&](const Props& p, bool inc) { Props r; for (auto& [k, v] : p) if (bool(bit(k)) == inc) r[k] = v; return r; };
        switch (op)
        {
            case 0: A._assign(cB, I); xa = only(b, true); break;
            case 1: if (alias) return; static_cast<Struct&>(A)._assign(std::move(static_cast<Struct&>(B)), I); xa = only(b, true); for (auto& [k, v] : xa) if (k < 32) xb.erase(k); break;
            case 2: A._copy(cB, I); xa = only(a, false); for (auto& [k, v] : only(b, true)) xa[k] = v; break;
            case 3: A._merge(cB, I); if (!alias) mergeInto(sd, xa, b, in); break;
            case 4: A._swap(B, I); if (!alias) { xa = only(a, false); for (auto& [k, v] : only(b, true)) xa[k] = v; xb = only(b, false); for (auto& [k, v] : only(a, true)) xb[k] = v; } break;
            case 5: A._clear(I); xa = only(a, false); break;
            case 6: { bool e = true; for (unsigned k : O) if (bit(k)) { bool x = a.count(k), y = b.count(k); if (x != y || (x && !eq(a[k], b[k]))) e = false; } CK(cA._equal(cB, I) == e, "equal"); break; }
            case 7: { bool e = true; for (auto& pd : sd.propertyDescriptors()) if (pd.isKey()) { unsigned k = tagBit(pd); bool x = a.count(k), y = b.count(k); if (x != y || (x && !eq(a[k], b[k]))) e = false; } CK(cA._same(cB) == e, "same"); break; }
            case 8: CK(cA._less(cB, I) == pless(a, b, in, O), "less"); break;
            case 9: CK(cA._lessEqual(cB, I) == !pless(b, a, in, O), "lessEqual"); break;
            case 10: CK(cA._greater(cB, I) == pless(b, a, in, O), "greater"); break;
            case 11: CK(cA._greaterEqual(cB, I) == !pless(a, b, in, O), "greaterEqual"); break;
            case 12: { uint32_t r = cA._diffProperties(cB, I).toValue(), w = 0; for (unsigned k : O) if (bit(k)) { bool x = a.count(k), y = b.count(k); if (x != y || (x && !eq(a[k], b[k]))) w |= 1u << k; } CK(r == w, "diffProperties"); break; }
            case 13: // copy construction / destruction on raw memory
            {
                void* m = ::operator new(sd.size() + 64); Struct& C = *static_cast<Struct*>(m); 
                if constexpr (std::is_same_v<X, DynamicStruct>) { ::operator delete(m); X C2(cB); CK(eq(snap(C2), b), "copyConstruct"); CK(eq(snap(cB), b), "copySource"); X C3(std::move(C2)); CK(eq(snap(C3), b), "moveConstruct"); break; }
                else { sd.construct(C, static_cast<const Struct&>(cB)); CK(eq(snap(C), b), "copyConstruct"); sd.destruct(C); CK(snap(C).empty(), "destruct"); ::operator delete(m); break; }
            }
            case 14: { Typeless& TA = Typeless::From(static_cast<Struct&>(A)); const Typeless& TB = Typeless::From(static_cast<const Struct&>(cB)); Typeless& MB = Typeless::From(static_cast<Struct&>(B)); switch (below(4)) { case 0: sd.assign(TA, TB); xa = b; break; case 1: if (!alias) { sd.assign(TA, std::move(MB)); xa = b; xb.clear(); } break; case 2: static_cast<const Descriptor<>&>(sd).assign(TA); xa.clear(); if (alias) xb.clear(); break; default: if (!alias) { sd.swap(TA, MB); std::swap(xa, xb); } } break; }
            case 16: // type-erased construction on raw memory
            {
                size_t extra = 64; if (alias) return; void* m = ::operator new(sd.size() + extra); Typeless& T = *static_cast<Typeless*>(m); const Descriptor<>& D = sd; const Struct& C = *static_cast<Struct*>(m); std::memset(m, 0xa5, sd.size() + extra);
                unsigned how = unsigned(below(6)); if (std::is_same_v<X, DynamicStruct> && how < 3) how += 3;
                switch (how) { case 0: D.construct(T); break; case 1: D.construct(T, Typeless::From(static_cast<const Struct&>(cB))); break; case 2: D.construct(T, std::move(Typeless::From(static_cast<Struct&>(B)))); break; case 3: D.constructInPlace(T); break; case 4: D.constructInPlace(T, Typeless::From(static_cast<const Struct&>(cB))); break; default: D.constructInPlace(T, std::move(Typeless::From(static_cast<Struct&>(B)))); }
                Props got = snap(C); bool none = how % 3 == 0; if (how % 3 == 2) xb.clear(); if (!eq(got, none ? Props{} : b)) fail("typelessConstruct", "way " + std::to_string(how) + " gives " + str(got)); D.destruct(T); if (!snap(C).empty()) fail("typelessDestruct", str(snap(C))); ::operator delete(m); break;
            }
            case 17: CK(sd.equal(Typeless::From(static_cast<Struct&>(A)), Typeless::From(static_cast<const Struct&>(cB))) == eq(a, b), "typelessEqual"); break;
            case 18: CK(sd.less(Typeless::From(static_cast<Struct&>(A)), Typeless::From(static_cast<const Struct&>(cB))) == pless(a, b, ~0u, O), "typelessLess"); CK(cA._equal(cA), "reflexive"); CK(!cA._less(cA), "irreflexive"); break;
            default: // laws: assign then equal; swap twice; iteration order and completeness
            {
                std::vector<unsigned> seen; for (const auto& p : static_cast<const Struct&>(cA)._propertyRange(I)) seen.push_back(tagBit(p.descriptor())); std::vector<unsigned> w; for (unsigned k : O) if (bit(k)) w.push_back(k); CK(seen == w, "iteration"); break;
            }
        }
        Props ra = snap(A); if (!eq(ra, xa)) fail("result", "first operand is " + str(ra) + " expected " + str(xa));
        if (!alias) { Props rb = snap(B); if (!eq(rb, xb)) fail("source", "second operand is " + str(rb) + " expected " + str(xb)); }
        uint32_t v = A._propertyArea().validProperties().toValue(); for (unsigned k : O) v &= ~(1u << k); CK(v == 0, "undeclared");
    }
}
template <class T> struct StaticPtr { std::unique_ptr<T> p = std::make_unique<T>(); T& operator*() { return *p; } };
struct ErasedPtr { const StructDescriptor& sd; void* m; Struct* s; ErasedPtr(const StructDescriptor& d) : sd(d), m(::operator new(d.size())), s(&d.construct(*static_cast<Struct*>(m))) {} ~ErasedPtr() { sd.destruct(*s); ::operator delete(m); } Struct& operator*() { return *s; } };
struct DynPtr { std::unique_ptr<DynamicStruct> p; DynPtr(const Descriptor<DynamicStruct>& d) : p(std::make_unique<DynamicStruct>(d)) {} DynamicStruct& operator*() { return *p; } };
template <class T> static void all()
{
    const StructDescriptor& sd = T::_Descriptor(); auto& dd = dynamicTwin(sd);
    auto bal = [&](auto f, const char* k) { f(); long l0 = g_live; f(); (void)k; long l1 = g_live; if (l1 != l0) { fail("leak", std::to_string(l1 - l0) + " allocations are not released"); } };
    bal([&] { round<T>(sd, [] { return StaticPtr<T>{}; }, "static"); }, "static");
    bal([&] { round<Struct>(sd, [&] { return ErasedPtr{ sd }; }, "erased") ; }, "erased");
    bal([&] { round<DynamicStruct>(dd, [&] { return DynPtr{ dd }; }, "dynamic"); }, "dynamic");
}
int main(int argc, char** argv)
{
    vd::init(argc, argv); uint64_t n = thorough() ? 120000 : 6000;
    for (uint64_t k = 0; k < n; ++k) { all<dots::types::VhRich>(); all<dots::types::VhDeep>(); if (k % 3 == 0) { all<dots::types::VhOne>(); all<dots::types::VhPlain>(); } }
    return vd::done();
}
