// Run-time contract check of the CBOR struct serializer on static, type-erased and dynamic instances: an independent encoder and
// decoder over the value model, arbitrary property order, masks, unknown tags, alternative heads, malformed input and serializer reuse.
#include "values.h"
#include "cbororacle.h"
#include "dots/serialization/CborSerializer.h"
#include "DotsTransportHeader.dots.h"
#include "DotsMsgConnect.dots.h"
#include "DotsMsgConnectResponse.dots.h"
#include "StructDescriptorData.dots.h"
#include "EnumDescriptorData.dots.h"
#include "DotsMsgError.dots.h"
#include "DotsMember.dots.h"
using namespace vm;
#define CK(E, K) vd::check(E, K, #E)
using Ser = dots::serialization::CborSerializer;
static const VectorDescriptor& vdesc(const Descriptor<>& d) { return static_cast<const VectorDescriptor&>(d); }
static const StructDescriptor& sdesc(const Descriptor<>& d) { return static_cast<const StructDescriptor&>(d); }
static void add(Bytes& o, const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
// ---- encoder
static void enc(Bytes& o, const Descriptor<>& d, const Val& v);
static void enc(Bytes& o, const StructDescriptor& sd, const Props& p, uint32_t in)
{
    unsigned n = 0; for (auto& pd : sd.propertyDescriptors()) if (p.count(tagBit(pd)) && in >> tagBit(pd) & 1u) ++n;
    oHead(o, 5, n); for (auto& pd : sd.propertyDescriptors()) { unsigned k = tagBit(pd); if (!p.count(k) || !(in >> k & 1u)) continue; oHead(o, 0, pd.tag()); enc(o, pd.valueDescriptor(), p.at(k)); }
}
static uint32_t enumTag(const Descriptor<>& d, int64_t v) { for (auto& e : static_cast<const EnumDescriptor&>(d).enumeratorsTypeless()) if (*reinterpret_cast<const int32_t*>(&e.valueTypeless()) == v) return e.tag(); return 0; }
static void enc(Bytes& o, const Descriptor<>& d, const Val& v)
{
    switch (d.type())
    {
        case Type::boolean: add(o, oWrite(bool(v.u))); break; case Type::int8: case Type::int16: case Type::int32: case Type::int64: add(o, oWrite(v.i)); break;
        case Type::uint8: case Type::uint16: case Type::uint32: case Type::uint64: case Type::property_set: add(o, oWrite(v.u)); break;
        case Type::float32: add(o, oWrite(float(v.d))); break; case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: add(o, oWrite(v.d)); break;
        case Type::string: add(o, oWrite(v.s)); break; case Type::uuid: { std::array<uint8_t, 16> a; std::memcpy(a.data(), v.s.data(), 16); add(o, oWrite(a)); break; }
        case Type::Enum: add(o, oWrite(uint64_t(enumTag(d, v.i)))); break;
        case Type::Vector: oHead(o, 4, v.e.size()); for (auto& x : v.e) enc(o, vdesc(d).valueDescriptor(), x); break;
        case Type::Struct: enc(o, sdesc(d), v.p, ~0u); break;
    }
}
// ---- decoder: false if the input is not acceptable; "touched" are the top level properties that were started
template <class T> static bool rd(const Bytes& in, size_t& c, T& t) { Bytes r(in.begin() + long(std::min(c, in.size())), in.end()); auto x = oRead<T>(r); if (!x) return false; t = x->first; c += x->second; return true; }
static Val dflt(const Descriptor<>& d) { Val v; v.t = d.type(); if (v.t == Type::uuid) v.s.assign(16, '\0'); return v; }
static bool dec(const Bytes& in, size_t& c, const Descriptor<>& d, Val& v);
static bool dec(const Bytes& in, size_t& c, const StructDescriptor& sd, Props& p, uint32_t incl, std::set<unsigned>* touched = nullptr)
{
    H h = oDec(in, c); if (!h.ok || h.major != 5) return false; c = h.next;
    for (uint64_t k = 0; k < h.val; ++k)
    {
        uint32_t tag; if (!rd(in, c, tag)) return false; const PropertyDescriptor* pd = nullptr; for (auto& x : sd.propertyDescriptors()) if (x.tag() == tag) { pd = &x; break; }
        if (pd && incl >> tagBit(*pd) & 1u) { unsigned b = tagBit(*pd); if (touched) touched->insert(b); if (!p.count(b)) p[b] = dflt(pd->valueDescriptor()); if (!dec(in, c, pd->valueDescriptor(), p[b])) return false; }
        else { auto n = oSkip(in, c); if (!n) return false; c = *n; }
    }
    return true;
}
static bool dec(const Bytes& in, size_t& c, const Descriptor<>& d, Val& v)
{
    auto I = [&](auto t) { if (!rd(in, c, t)) return false; v.i = t; return true; }; auto U = [&](auto t) { if (!rd(in, c, t)) return false; v.u = t; return true; };
    switch (d.type())
    {
        case Type::boolean: return U(bool{}); case Type::int8: return I(int8_t{}); case Type::int16: return I(int16_t{}); case Type::int32: return I(int32_t{}); case Type::int64: return I(int64_t{});
        case Type::uint8: return U(uint8_t{}); case Type::uint16: return U(uint16_t{}); case Type::uint32: case Type::property_set: return U(uint32_t{}); case Type::uint64: return U(uint64_t{});
        case Type::float32: { float f; if (!rd(in, c, f)) return false; v.d = f; return true; } case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: return rd(in, c, v.d);
        case Type::string: return rd(in, c, v.s); case Type::uuid: { std::array<uint8_t, 16> a; if (!rd(in, c, a)) return false; v.s.assign((const char*)a.data(), 16); return true; }
        case Type::Enum: { uint32_t t; if (!rd(in, c, t)) return false; for (auto& e : static_cast<const EnumDescriptor&>(d).enumeratorsTypeless()) if (e.tag() == t) { v.i = *reinterpret_cast<const int32_t*>(&e.valueTypeless()); return true; } return false; }
        case Type::Vector: { H h = oDec(in, c); if (!h.ok || h.major != 4) return false; c = h.next; v.e.clear(); if (h.val > in.size() - c) return false; for (uint64_t k = 0; k < h.val; ++k) { v.e.push_back(dflt(vdesc(d).valueDescriptor())); if (!dec(in, c, vdesc(d).valueDescriptor(), v.e.back())) return false; } return true; }
        case Type::Struct: return dec(in, c, sdesc(d), v.p, ~0u);
    }
    return false;
}
// ---- arbitrary well formed input: any order, unknown tags, wider heads where the type allows it
static void junk(Bytes& o, int depth = 0)
{
    switch (below(depth > 3 ? 6 : 8))
    {
        case 0: oHead(o, 0, rnd() >> below(64)); break; case 1: oHead(o, 1, rnd() >> below(64)); break; case 2: case 3: { unsigned m = 2 + unsigned(below(2)); size_t n = below(chance(80) ? 5 : 300); oHead(o, m, n); while (n--) o.push_back(uint8_t(rnd())); break; }
        case 4: o.push_back(chance(50) ? 0xf4 : 0xf5); break; case 5: add(o, chance(50) ? oWrite(float(below(9))) : oWrite(double(below(9)))); break;
        case 6: { size_t n = below(4); oHead(o, 4, n); while (n--) junk(o, depth + 1); break; } default: { size_t n = below(4); oHead(o, 5, n); while (n--) { junk(o, depth + 1); junk(o, depth + 1); } }
    }
}
static void wide(Bytes& o, unsigned major, uint64_t v, unsigned max) { int n = v < 24 ? 0 : v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ull ? 4 : 8; while (chance(15) && n < int(max)) n = n ? 2 * n : 1; if (!n) { o.push_back(uint8_t(major << 5 | v)); return; } o.push_back(uint8_t(major << 5 | unsigned(n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27))); for (int k = n - 1; k >= 0; --k) o.push_back(uint8_t(v >> 8 * k)); }
static void arb(Bytes& o, const Descriptor<>& d, int depth);
static void arb(Bytes& o, const StructDescriptor& sd, int depth)
{
    std::vector<const PropertyDescriptor*> l; for (auto& pd : sd.propertyDescriptors()) if (chance(depth ? 50 : 35)) l.push_back(&pd); if (!l.empty() && chance(15)) l.push_back(l[below(l.size())]);
    for (int n = int(below(3)); n--;) l.push_back(nullptr); for (size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[below(k)]);
    wide(o, 5, l.size(), 8); for (auto* pd : l) if (pd) { wide(o, 0, pd->tag(), 4); arb(o, pd->valueDescriptor(), depth + 1); } else { uint32_t t; bool known; do { t = uint32_t(chance(70) ? below(40) : rnd() >> (32 + below(32))); known = false; for (auto& x : sd.propertyDescriptors()) known |= x.tag() == t; } while (known); wide(o, 0, t, 4); junk(o); }
}
static void arb(Bytes& o, const Descriptor<>& d, int depth)
{
    if (d.type() == Type::Struct) { arb(o, sdesc(d), depth + 1); return; }
    if (d.type() == Type::Vector) { size_t n = below(4); wide(o, 4, n, 8); while (n--) arb(o, vdesc(d).valueDescriptor(), depth + 1); return; }
    Val v = gen(d); unsigned w = 0;
    switch (d.type()) { case Type::uint8: w = 1; break; case Type::uint16: w = 2; break; case Type::uint32: case Type::property_set: case Type::Enum: w = 4; break; case Type::uint64: w = 8; break; default: break; }
    if (w) wide(o, 0, d.type() == Type::Enum ? enumTag(d, v.i) : v.u, w); else enc(o, d, v);
}
static uint32_t mask() { switch (below(6)) { case 0: case 1: return ~0u; case 2: return 0; case 3: return uint32_t(rnd()); case 4: return uint32_t(rnd() | rnd()); default: return 1u << below(32); } }
struct Exact { std::unique_ptr<uint8_t[]> p; size_t n; Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) std::memcpy(p.get(), b.data(), n); } };
static std::unique_ptr<Ser> g_ser; static Bytes g_out; static size_t g_uses = 0; static std::string g_hist;
static Ser& ser() { if (!g_ser || ++g_uses > 40 || chance(3)) { g_ser = std::make_unique<Ser>(); g_out.clear(); g_uses = 0; g_hist.clear(); } return *g_ser; }
static std::string hist() { return g_hist.empty() ? "" : " after " + g_hist; }

template <class X, class Mk> static void encodeRound(const StructDescriptor& sd, Mk mk, const char* kind)
{
    Props p = gen(sd, 0, unsigned(below(5)) * 25); uint32_t in = mask(); auto h = mk(); X& x = *h; put(x, p); Ser& s = ser(); Bytes want;
    setCase(std::string(kind) + " " + sd.name() + " encode included " + std::to_string(in) + " of " + str(p) + hist()); count(!p.empty());
    size_t n = 0; bool all = chance(30);
    if (all) { in = ~0u; n = s.serialize(static_cast<const X&>(x)); } else n = s.serialize(static_cast<const X&>(x), PropertySet{ in });
    enc(want, sd, p, in); Bytes full = g_out; add(full, want);
    if (s.output() != full) { fail("encoding", "expected " + hex(want) + " got " + hex(s.output().data() + std::min(s.output().size(), g_out.size()), s.output().size() - std::min(s.output().size(), g_out.size())) + (s.output().size() >= g_out.size() && std::equal(g_out.begin(), g_out.end(), s.output().begin()) ? "" : " (earlier output changed)")); g_ser.reset(); return; }
    CK(n == want.size(), "encoded-size"); CK(s.lastSerializeSize() == want.size(), "last-serialize-size"); CK(eq(snap(x), p), "encoding-changed-instance");
    CK(dots::to_cbor(static_cast<const X&>(x), PropertySet{ in }) == want, "to_cbor"); g_out = full; g_hist = "encode";
    // decoding the written bytes into a fresh instance gives the included properties
    auto f = mk(); Props q; for (auto& [k, v] : p) if (in >> k & 1u) q[k] = v; Exact e{ want };
    try { CK(dots::from_cbor(e.p.get(), e.n, *f) == want.size(), "round-trip-size"); CK(eq(snap(*f), q), "round-trip"); } catch (const std::exception& ex) { fail("round-trip-rejected", ex.what()); }
}
static void mutate(Bytes& b)
{
    if (b.empty()) return;
    switch (below(5)) { case 0: b.resize(below(b.size())); break; case 1: b[below(b.size())] = uint8_t(rnd()); break; case 2: b[below(b.size())] ^= uint8_t(1u << below(8)); break; case 3: b.erase(b.begin() + long(below(b.size()))); break; default: b.insert(b.begin() + long(below(b.size())), uint8_t(rnd())); }
}
template <class X, class Mk> static void decodeRound(const StructDescriptor& sd, Mk mk, const char* kind)
{
    // several values after each other in one input, with one serializer
    Bytes in; std::vector<size_t> ends; for (size_t n = 1 + below(3); n--;) { Bytes b; if (chance(70)) arb(b, sd, 0); else enc(b, sd, gen(sd, 0, 50), ~0u); if (chance(20)) mutate(b); add(in, b); }
    Exact e{ in }; Ser& s = ser(); s.setInput(e.p.get(), e.n); size_t c = 0;
    while (c < in.size())
    {
        Props p = gen(sd, 0, unsigned(below(3)) * 40), want = p; uint32_t incl = mask(); bool dfl = chance(30); if (dfl) incl = ~0u; auto h = mk(); X& x = *h; put(x, p);
        size_t c0 = c; std::set<unsigned> touched; bool ok = dec(in, c, sd, want, incl, &touched);
        setCase(std::string(kind) + " " + sd.name() + " decode " + hex(in.data() + c0, in.size() - c0) + " included " + std::to_string(incl) + " into " + str(p) + (c0 ? " (value after others)" : "") + hist()); count(ok);
        bool threw = false; size_t n = 0; try { n = dfl ? s.deserialize(x) : s.deserialize(x, PropertySet{ incl }); } catch (const std::exception&) { threw = true; }
        g_hist = ok ? "decode" : "rejected decode";
        if (!CK(threw == !ok, ok ? "well-formed-rejected" : "malformed-accepted")) { g_ser.reset(); return; }
        Props got = snap(x);
        if (!ok) { for (unsigned k = 0; k < 32; ++k) if (!touched.count(k)) { Props a, b; if (p.count(k)) a[k] = p[k]; if (got.count(k)) b[k] = got[k]; CK(eq(a, b), "unmentioned-property-changed-by-rejected-input"); } if (s.output() != g_out) fail("output-changed", "decoding wrote output"); return; }
        if (!CK(eq(got, want), "decoded-value")) std::printf("  got %s\n  expected %s\n", str(got).c_str(), str(want).c_str());
        CK(n == c - c0, "consumed-size"); CK(s.lastDeserializeSize() == c - c0, "last-deserialize-size"); CK(s.inputAvailable() == in.size() - c, "input-available");
    }
    // nothing left: rejected
    { auto h = mk(); setCase(std::string(kind) + " " + sd.name() + " decode from exhausted input"); bool threw = false; try { s.deserialize(*h); } catch (const std::exception&) { threw = true; } CK(threw, "empty-accepted"); CK(snap(*h).empty(), "empty-changed"); g_hist = "empty input"; }
}
// values that are not structs, single properties
template <class X, class Mk> static void propertyRound(const StructDescriptor& sd, Mk mk, const char* kind)
{
    auto& pds = sd.propertyDescriptors(); auto& pd = pds[below(pds.size())]; Props p; Val v = gen(pd.valueDescriptor()); p[tagBit(pd)] = v; auto h = mk(); put(*h, p); Bytes want; enc(want, pd.valueDescriptor(), v); setCase(std::string(kind) + " property " + sd.name() + "." + pd.name() + " = " + str(v) + hist()); count();
    Ser& s = ser(); size_t n = s.serialize(std::as_const(static_cast<const ProxyProperty<>&>(ProxyProperty<>{ *h, pd }))); Bytes full = g_out; add(full, want); if (!CK(s.output() == full, "property-encoding")) { g_ser.reset(); return; } CK(n == want.size(), "property-size"); g_out = full; g_hist = "property";
    auto f = mk(); ProxyProperty<> q{ *f, pd }; Exact e{ want }; s.setInput(e.p.get(), e.n);
    try { CK(s.deserialize(q) == want.size(), "property-consumed"); bool isStruct = pd.valueDescriptor().type() == Type::Struct; Props got = snap(*f), none; none[tagBit(pd)] = dflt(pd.valueDescriptor()); if (isStruct && !eq(got, p) && eq(got, none)) fail("single-struct-property-left-empty", "decoding a single property of struct type into an instance without it leaves the struct empty"); else CK(eq(got, p), "property-round-trip"); } catch (const std::exception& ex) { fail("property-rejected", ex.what()); }
}
template <class T> struct StaticPtr { std::unique_ptr<T> p = std::make_unique<T>(); T& operator*() { return *p; } };
struct ErasedPtr { const StructDescriptor& sd; void* m; Struct* s; ErasedPtr(const StructDescriptor& d) : sd(d), m(::operator new(d.size())), s(&d.construct(*static_cast<Struct*>(m))) {} ~ErasedPtr() { sd.destruct(*s); ::operator delete(m); } ErasedPtr(const ErasedPtr&) = delete; Struct& operator*() { return *s; } };
struct DynPtr { std::unique_ptr<DynamicStruct> p; DynPtr(const Descriptor<DynamicStruct>& d) : p(std::make_unique<DynamicStruct>(d)) {} DynamicStruct& operator*() { return *p; } };
template <class T> static void all()
{
    const StructDescriptor& sd = T::_Descriptor(); auto& dd = dynamicTwin(sd);
    auto each = [&](auto f) { f((T*)0, sd, [] { return StaticPtr<T>{}; }, "static"); f((Struct*)0, sd, [&] { return ErasedPtr{ sd }; }, "erased"); f((DynamicStruct*)0, dd, [&] { return DynPtr{ dd }; }, "dynamic"); };
    each([](auto* x, auto& d, auto mk, const char* k) { encodeRound<std::remove_pointer_t<decltype(x)>>(d, mk, k); });
    each([](auto* x, auto& d, auto mk, const char* k) { decodeRound<std::remove_pointer_t<decltype(x)>>(d, mk, k); });
    each([](auto* x, auto& d, auto mk, const char* k) { propertyRound<std::remove_pointer_t<decltype(x)>>(d, mk, k); });
}
template <class T> static void scalar(T v, const Val& m, const Descriptor<>& d)
{
    Bytes want; enc(want, d, m); setCase(std::string("value of type ") + d.name() + " " + str(m)); count();
    CK(dots::to_cbor(v) == want, "value-encoding"); T b{}; Exact e{ want }; try { CK(dots::from_cbor(e.p.get(), e.n, b) == want.size(), "value-consumed"); Val x = snap(d, reinterpret_cast<const Typeless&>(b)); CK(eq(x, m), "value-round-trip"); } catch (const std::exception& ex) { fail("value-rejected", ex.what()); }
}
template <class T> static void value() { auto& d = Descriptor<T>::Instance(); Val m = gen(d); T v{}; put(d, reinterpret_cast<Typeless&>(v), m); scalar(v, m, d); }
int main(int argc, char** argv)
{
    using namespace dots::types; vd::init(argc, argv); uint64_t n = thorough() ? 40000 : 2500;
    for (uint64_t k = 0; k < n; ++k)
    {
        all<VhRich>(); all<VhDeep>(); if (k % 3 == 0) { all<VhOne>(); all<VhPlain>(); all<DotsTransportHeader>(); all<DotsMember>(); all<DotsMsgConnect>(); all<StructDescriptorData>(); all<EnumDescriptorData>(); }
        value<dots::vector_t<int32_t>>(); value<dots::vector_t<std::string>>(); value<dots::vector_t<VhSub>>(); value<dots::vector_t<bool>>(); value<VhEnum>(); value<int64_t>(); value<uint16_t>(); value<std::string>(); value<double>(); value<dots::uuid_t>(); value<dots::timepoint_t>(); value<dots::property_set_t>();
    }
    return vd::done();
}
