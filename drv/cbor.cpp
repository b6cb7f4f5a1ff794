// Run-time contract check of the real CBOR reader/writer against an independent RFC 8949 oracle.
#include "cbororacle.h"
#include <limits>
#include <cmath>
#include <optional>
#include <memory>
#include "dots/serialization/formats/CborWriter.h"
#include "dots/serialization/formats/CborReader.h"
using namespace dots::serialization;

// input in a heap block of exactly its size, so that every read outside of it is caught
struct In { std::unique_ptr<uint8_t[]> p; size_t n; CborReader r; explicit In(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) std::memcpy(p.get(), b.data(), n); r.setInput(p.get(), n); } size_t pos() { return r.inputData() - p.get(); } };

template <typename T> struct Name;
#define NM(T) template <> struct Name<T> { static constexpr const char* n = #T; };
NM(uint8_t) NM(uint16_t) NM(uint32_t) NM(uint64_t) NM(int8_t) NM(int16_t) NM(int32_t) NM(int64_t) NM(float) NM(double) NM(bool) NM(std::string)
using B16 = std::array<uint8_t, 16>; NM(B16)

template <typename T> static bool eq(const T& a, const T& b) { if constexpr (std::is_floating_point_v<T>) return same(a, b); else return a == b; }

static Bytes wr(const std::function<void(CborWriter&)>& f, const Bytes& pre = {}) { CborWriter w; w.output() = pre; f(w); return w.output(); }

template <typename T> static void value(const T& v)
{
    Bytes enc = wr([&](CborWriter& w) { w.write(v); });
    if (vd::pid == "C02") 
    {
        vd::count(); Bytes want = oWrite(v); vd::setCase(std::string("write ") + Name<T>::n + " expected " + vd::hex(want));
        vd::check(enc == want, "encoding", "got " + vd::hex(enc));
        Bytes pre{ 1, 2, 3 }; Bytes e2 = wr([&](CborWriter& w) { w.write(v); }, pre); Bytes w2 = pre; w2.insert(w2.end(), want.begin(), want.end());
        vd::check(e2 == w2, "append", "output prefix changed: " + vd::hex(e2)); return;
    }
    vd::count(); vd::setCase(std::string("round trip ") + Name<T>::n + " encoded " + vd::hex(enc));
    for (int tail = 0; tail < 2; ++tail)
    {
        Bytes b = enc; if (tail) b.push_back(0xff);
        In in(b); T out{};
        if constexpr (!std::is_same_v<T, B16> && !std::is_same_v<T, std::string>) out = T(1);
        if constexpr (std::is_same_v<T, std::string>) out = "previous";
        try { in.r.read(out); vd::check(eq(out, v), "roundtrip-value", "decoded value differs"); vd::check(in.pos() == enc.size(), "roundtrip-consumed", "consumed " + std::to_string(in.pos())); }
        catch (const std::exception& e) { vd::fail("roundtrip-throws", e.what()); }
    }
}
template <typename T> static void decode(const Bytes& b)
{
    vd::count(b.size() > 0); vd::setCase(std::string("read ") + Name<T>::n + " from " + vd::hex(b));
    In in(b); T out{}; auto want = oRead<T>(b); bool ok = false;
    try { in.r.read(out); ok = true; } catch (const std::exception&) { }
    if (vd::check(ok == want.has_value(), ok ? "accepts-invalid" : "rejects-valid", ok ? "accepted" : "rejected") && ok)
    { vd::check(eq(out, want->first), "decode-value", "wrong value"); vd::check(in.pos() == want->second, "decode-consumed", "consumed " + std::to_string(in.pos()) + " expected " + std::to_string(want->second)); }
    vd::check(in.pos() <= b.size(), "position-outside", "position " + std::to_string(in.pos()));
}
static void size(const Bytes& b, bool map)
{
    vd::count(); vd::setCase(std::string(map ? "readMapSize " : "readArraySize ") + vd::hex(b));
    In in(b); H h = oDec(b, 0); bool want = h.ok && h.major == (map ? 5u : 4u); bool ok = false; size_t v = 0;
    try { v = map ? in.r.readMapSize() : in.r.readArraySize(); ok = true; } catch (const std::exception&) { }
    if (vd::check(ok == want, ok ? "size-accepts-invalid" : "size-rejects-valid", "") && ok) { vd::check(v == h.val, "size-value", std::to_string(v)); vd::check(in.pos() == h.next, "size-consumed", std::to_string(in.pos())); }
}
static void mark(const Bytes& b, int which)
{
    static const uint8_t want[4] = { 0x9f, 0xff, 0xbf, 0xff };
    vd::count(); vd::setCase("marker " + std::to_string(which) + " " + vd::hex(b)); In in(b); bool ok = false;
    try { which == 0 ? in.r.readArrayBegin() : which == 1 ? in.r.readArrayEnd() : which == 2 ? in.r.readMapBegin() : in.r.readMapEnd(); ok = true; } catch (const std::exception&) { }
    bool w = !b.empty() && b[0] == want[which];
    if (vd::check(ok == w, "marker", ok ? "accepted" : "rejected") && ok) vd::check(in.pos() == 1, "marker-consumed", "");
}
static void decodeAll(const Bytes& b)
{
    decode<uint8_t>(b); decode<uint16_t>(b); decode<uint32_t>(b); decode<uint64_t>(b); decode<int8_t>(b); decode<int16_t>(b); decode<int32_t>(b); decode<int64_t>(b);
    decode<float>(b); decode<double>(b); decode<bool>(b); decode<std::string>(b); decode<B16>(b); size(b, false); size(b, true); for (int k = 0; k < 4; ++k) mark(b, k);
}
static void skip(const Bytes& b)
{
    vd::count(b.size() > 1); vd::setCase("skip " + vd::hex(b)); In in(b); auto want = oSkip(b, 0); bool ok = false;
    try { in.r.skip(); ok = true; } catch (const std::exception&) { }
    if (vd::check(ok == want.has_value(), ok ? "skip-accepts-invalid" : "skip-rejects-valid", ok ? "accepted" : "rejected") && ok) vd::check(in.pos() == *want, "skip-consumed", "consumed " + std::to_string(in.pos()) + " expected " + std::to_string(*want));
    vd::check(in.pos() <= b.size(), "position-outside", "position " + std::to_string(in.pos()));
}
// a random well-formed item
static void gen(Bytes& o, int depth)
{
    unsigned m = unsigned(vd::below(depth > 0 ? 8 : 4)); if (m == 6) m = 7; if (depth <= 0 && m >= 4) m = 0;
    auto head = [&](unsigned major, uint64_t v) // not necessarily shortest
    {
        int mn = v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v < (1ull << 32) ? 4 : 8; int n = mn; while (n < 8 && vd::chance(25)) n = n ? n * 2 : 1;
        if (n == 0) { o.push_back(uint8_t(major << 5 | v)); return; }
        o.push_back(uint8_t(major << 5 | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27))); for (int k = n - 1; k >= 0; --k) o.push_back(uint8_t(v >> 8 * k));
    };
    switch (m)
    {
        case 0: case 1: { uint64_t v = vd::rnd() >> vd::below(64); head(m, v); break; }
        case 2: case 3: { uint64_t n = vd::chance(90) ? vd::below(30) : vd::below(400); head(m, n); for (uint64_t k = 0; k < n; ++k) o.push_back(uint8_t(vd::rnd())); break; }
        case 4: { uint64_t n = vd::chance(90) ? vd::below(5) : vd::below(300); head(4, n); for (uint64_t k = 0; k < n; ++k) gen(o, n > 5 ? 0 : depth - 1); break; }
        case 5: { uint64_t n = vd::chance(90) ? vd::below(4) : vd::below(280); head(5, n); for (uint64_t k = 0; k < 2 * n; ++k) gen(o, n > 4 ? 0 : depth - 1); break; }
        default: { static const uint8_t s[] = { 0xf4, 0xf5, 0xf6, 0xf7, 0xe0 }; switch (vd::below(5)) { case 0: o.push_back(s[vd::below(5)]); break; case 1: o.push_back(0xf8); o.push_back(uint8_t(vd::rnd())); break; default: { int n = 2 << vd::below(3); o.push_back(n == 2 ? 0xf9 : n == 4 ? 0xfa : 0xfb); for (int k = 0; k < n; ++k) o.push_back(uint8_t(vd::rnd())); } } }
    }
}
template <typename T> static void ints()
{
    std::set<int64_t> s;
    for (int k = 0; k < 64; ++k) for (int64_t d = -2; d <= 2; ++d) { s.insert(int64_t((1ull << k) + uint64_t(d))); s.insert(int64_t(0 - ((1ull << k) + uint64_t(d)))); }
    for (int64_t v = -300; v <= 300; ++v) s.insert(v);
    for (int64_t v = -70000; v <= 70000; v += 257) s.insert(v);
    for (int64_t v : s) value<T>(T(v));
    for (int k = 0; k < (vd::thorough() ? 400000 : 20000); ++k) value<T>(T(vd::rnd() >> vd::below(64)));
    value<T>(std::numeric_limits<T>::max()); value<T>(std::numeric_limits<T>::min());
    if (sizeof(T) <= 2) for (int v = 0; v < (1 << (8 * (sizeof(T) & 3))); ++v) value<T>(T(v));
}
int main(int argc, char** argv)
{
    vd::init(argc, argv);
    if (vd::pid == "C01" || vd::pid == "C02")
    {
        ints<uint8_t>(); ints<uint16_t>(); ints<uint32_t>(); ints<uint64_t>(); ints<int8_t>(); ints<int16_t>(); ints<int32_t>(); ints<int64_t>();
        value(true); value(false);
        std::vector<double> ds{ 0.0, -0.0, 1.0, -1.0, 0.1, 1.5, INFINITY, -INFINITY, NAN, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 65504.0, 65536.0, 3.4028234663852886e38, 1e-45, 16777217.0 };
        for (double d : ds) { value(d); value(float(d)); }
        for (int k = 0; k < (vd::thorough() ? 500000 : 20000); ++k) { uint64_t b = vd::rnd(); double d; float f; std::memcpy(&d, &b, 8); uint32_t c = uint32_t(b >> 16); std::memcpy(&f, &c, 4); value(d); value(f); }
        for (size_t n : { 0, 1, 2, 22, 23, 24, 25, 254, 255, 256, 257, 65534, 65535, 65536, 65537 }) { std::string s(n, 'x'); for (auto& ch : s) ch = char(vd::rnd()); value(s); }
        for (int k = 0; k < 3000; ++k) { std::string s(vd::below(300), 0); for (auto& ch : s) ch = char(vd::rnd()); value(s); }
        for (int k = 0; k < 3000; ++k) { B16 b; for (auto& x : b) x = uint8_t(vd::rnd()); value(b); }
        for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d)
        {
            uint64_t n = (1ull << k) + uint64_t(int64_t(d)); vd::count(); Bytes a, m; oHead(a, 4, n); oHead(m, 5, n); vd::setCase("size " + std::to_string(n));
            Bytes ea = wr([&](CborWriter& w) { w.writeArraySize(n); }), em = wr([&](CborWriter& w) { w.writeMapSize(n); });
            if (vd::pid == "C02") { vd::check(ea == a, "array-size-encoding", vd::hex(ea)); vd::check(em == m, "map-size-encoding", vd::hex(em)); }
            else try { In x(ea), y(em); vd::check(x.r.readArraySize() == n && x.pos() == ea.size(), "array-size-roundtrip", vd::hex(ea)); vd::check(y.r.readMapSize() == n && y.pos() == em.size(), "map-size-roundtrip", vd::hex(em)); } catch (const std::exception& e) { vd::fail("size-roundtrip", e.what()); }
        }
        {
            Bytes e = wr([&](CborWriter& w) { w.writeArrayBegin(); w.writeArrayEnd(); w.writeMapBegin(); w.writeMapEnd(); }); vd::count(); vd::setCase("markers");
            if (vd::pid == "C02") vd::check(e == Bytes{ 0x9f, 0xff, 0xbf, 0xff }, "markers", vd::hex(e));
            else try { In in(e); in.r.readArrayBegin(); in.r.readArrayEnd(); in.r.readMapBegin(); in.r.readMapEnd(); vd::check(in.pos() == 4, "markers", ""); } catch (const std::exception& x) { vd::fail("markers", x.what()); }
        }
    }
    else if (vd::pid == "C03")
    {
        decodeAll({});
        for (int b0 = 0; b0 < 256; ++b0)
        {
            decodeAll({ uint8_t(b0) });
            for (int n = 1; n <= 18; ++n) for (int pat = 0; pat < 6; ++pat)
            { Bytes b{ uint8_t(b0) }; for (int k = 0; k < n; ++k) b.push_back(pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (k == n - 1 ? 16 : 0) : pat == 3 ? (k == 0 ? 0x7f : 0xff) : pat == 4 ? (k == 0 ? 0x80 : 0) : uint8_t(vd::rnd())); decodeAll(b); }
        }
        for (int h = 0; h < 65536; ++h) { Bytes b{ 0xf9, uint8_t(h >> 8), uint8_t(h) }; decode<float>(b); decode<double>(b); }
        for (int k = 0; k < (vd::thorough() ? 400000 : 30000); ++k)
        { Bytes b; gen(b, 0); if (vd::chance(30) && b.size()) b.resize(vd::below(b.size() + 1)); if (vd::chance(30)) b.push_back(uint8_t(vd::rnd())); decodeAll(b); }
    }
    else if (vd::pid == "C04")
    {
        skip({});
        for (int b0 = 0; b0 < 256; ++b0) { skip({ uint8_t(b0) }); for (int b1 = 0; b1 < 256; ++b1) { skip({ uint8_t(b0), uint8_t(b1) }); for (int n = 1; n < 12; ++n) { Bytes b{ uint8_t(b0), uint8_t(b1) }; for (int k = 0; k < n; ++k) b.push_back(uint8_t(vd::chance(50) ? vd::rnd() : vd::below(4))); skip(b); } } }
        for (int k = 0; k < (vd::thorough() ? 600000 : 60000); ++k)
        { Bytes b; gen(b, 1 + int(vd::below(4))); size_t n = b.size(); auto w = oSkip(b, 0); if (!w || *w != n) std::printf("ORACLE mismatch\n"); if (vd::chance(30)) b.push_back(uint8_t(vd::rnd())); else if (vd::chance(30)) b.resize(vd::below(n)); else if (vd::chance(20)) b[vd::below(n)] = uint8_t(vd::rnd()); if (b.size() < 2000) skip(b); }
        // announced sizes far beyond the input
        for (int m : { 2, 3, 4, 5 }) for (int k = 0; k < 64; ++k) { Bytes b; oHead(b, m, 1ull << k); skip(b); b.push_back(0); skip(b); Bytes f{ uint8_t(m << 5 | 27) }; for (int q = 0; q < 8; ++q) f.push_back(0xff); skip(f); }
    }
    return vd::done();
}
