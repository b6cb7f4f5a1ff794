// An independent RFC 8949 oracle: heads, skipping, reading and writing of values.
#pragma once
#include "common.h"
#include <limits>
#include <cmath>
#include <optional>
#include <array>
using Bytes = std::vector<uint8_t>;
// ---------------------------------------------------------------- oracle (written from RFC 8949)
static void oHead(Bytes& o, unsigned major, uint64_t v)
{
    unsigned m = major << 5;
    if (v < 24) { o.push_back(uint8_t(m | v)); return; }
    int n = v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ull ? 4 : 8;
    o.push_back(uint8_t(m | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27)));
    for (int k = n - 1; k >= 0; --k) o.push_back(uint8_t(v >> (8 * k)));
}
struct H { bool ok = false; unsigned major = 0, nb = 0; uint64_t val = 0; size_t next = 0; };
static H oDec(const Bytes& in, size_t c)
{
    H h; if (c >= in.size()) return h;
    h.major = in[c] >> 5; unsigned ai = in[c] & 31;
    if (ai > 27) return h;
    h.nb = ai < 24 ? 0 : 1u << (ai - 24); if (h.nb > in.size() - c - 1) return h;
    if (ai < 24) h.val = ai; else for (unsigned k = 0; k < h.nb; ++k) h.val = h.val << 8 | in[c + 1 + k];
    h.next = c + 1 + h.nb; h.ok = true; return h;
}
static std::optional<size_t> oSkip(const Bytes& in, size_t c, int depth = 0)
{
    H h = oDec(in, c); if (!h.ok) return {};
    switch (h.major)
    {
        case 0: case 1: case 7: return h.next;
        case 2: case 3: if (h.val > in.size() - h.next) return {}; return h.next + h.val;
        case 4: case 5: { size_t p = h.next; for (uint64_t k = 0; k < h.val; ++k) for (int q = 0; q < (h.major == 5 ? 2 : 1); ++q) { auto n = oSkip(in, p, depth + 1); if (!n) return {}; p = *n; } return p; }
        default: return {};
    }
}
static double half(uint16_t h) { int e = (h >> 10) & 31, m = h & 1023; double v = e == 0 ? std::ldexp(m, -24) : e != 31 ? std::ldexp(m + 1024, e - 25) : m ? NAN : INFINITY; return h & 0x8000 ? -v : v; }
template <typename T> static bool same(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }

template <typename T> static std::optional<std::pair<T, size_t>> oRead(const Bytes& in)
{
    H h = oDec(in, 0); if (!h.ok) return {};
    if constexpr (std::is_same_v<T, bool>) { if (h.major == 7 && h.nb <= 1 && (h.val == 20 || h.val == 21)) return std::pair{ h.val == 21, h.next }; return {}; }
    else if constexpr (std::is_floating_point_v<T>)
    {
        if (h.major != 7 || h.nb < 2 || h.nb > sizeof(T)) return {};
        if (h.nb == 2) return std::pair{ T(half(uint16_t(h.val))), h.next };
        if (h.nb == 4) { uint32_t b = uint32_t(h.val); float f; std::memcpy(&f, &b, 4); return std::pair{ T(f), h.next }; }
        double d; std::memcpy(&d, &h.val, 8); return std::pair{ T(d), h.next };
    }
    else if constexpr (std::is_unsigned_v<T>) { if (h.major == 0 && h.nb <= sizeof(T)) return std::pair{ T(h.val), h.next }; return {}; }
    else if constexpr (std::is_signed_v<T>) { if (h.major <= 1 && h.nb <= sizeof(T) && h.val <= uint64_t(std::numeric_limits<T>::max())) return std::pair{ h.major ? T(-1 - int64_t(h.val)) : T(h.val), h.next }; return {}; }
    else if constexpr (std::is_same_v<T, std::string>) { if (h.major == 3 && h.val <= in.size() - h.next) return std::pair{ std::string((const char*)in.data() + h.next, h.val), h.next + h.val }; return {}; }
    else { if (h.major == 2 && h.val == 16 && 16 <= in.size() - h.next) { T t; std::memcpy(t.data(), in.data() + h.next, 16); return std::pair{ t, h.next + 16 }; } return {}; }
}
template <typename T> static Bytes oWrite(const T& v)
{
    Bytes o;
    if constexpr (std::is_same_v<T, bool>) o.push_back(v ? 0xf5 : 0xf4);
    else if constexpr (std::is_floating_point_v<T>) { o.push_back(sizeof(T) == 4 ? 0xfa : 0xfb); uint64_t b = 0; std::memcpy(&b, &v, sizeof v); for (int k = sizeof(T) - 1; k >= 0; --k) o.push_back(uint8_t(b >> 8 * k)); }
    else if constexpr (std::is_unsigned_v<T>) oHead(o, 0, v);
    else if constexpr (std::is_signed_v<T>) { if (v < 0) oHead(o, 1, uint64_t(-(int64_t(v) + 1))); else oHead(o, 0, uint64_t(v)); }
    else if constexpr (std::is_same_v<T, std::string>) { oHead(o, 3, v.size()); o.insert(o.end(), v.begin(), v.end()); }
    else { oHead(o, 2, 16); o.insert(o.end(), v.begin(), v.end()); }
    return o;
}
