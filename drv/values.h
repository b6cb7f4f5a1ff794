// An independent model of struct values (no library algorithm is used): snapshots, generation, comparison.
#pragma once
#include "common.h"
#include <map>
#include <memory>
#include <optional>
#include <cmath>
#include "dots/type/FundamentalTypes.h"
#include "dots/type/EnumDescriptor.h"
#include "dots/type/DynamicEnum.h"
#include "dots/type/DynamicStruct.h"
#include "dots/type/Struct.h"
#include "dots/type/StructDescriptor.h"
#include "dots/type/Registry.h"
#include "dots/io/DescriptorConverter.h"
#include "VhRich.dots.h"
#include "VhOne.dots.h"
#include "VhPlain.dots.h"
#include "VhUncached.dots.h"
#include "VhDeep.dots.h"
namespace vm
{
    using namespace dots::type; using namespace vd;
    struct Val
    {
        Type t{}; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s; std::vector<Val> e; std::map<unsigned, Val> p;
    };
    inline bool isInt(Type t) { return t == Type::int8 || t == Type::int16 || t == Type::int32 || t == Type::int64 || t == Type::Enum; }
    inline bool isUint(Type t) { return t == Type::boolean || t == Type::uint8 || t == Type::uint16 || t == Type::uint32 || t == Type::uint64 || t == Type::property_set; }
    inline bool isFloat(Type t) { return t == Type::float32 || t == Type::float64 || t == Type::timepoint || t == Type::steady_timepoint || t == Type::duration; }
    inline bool eq(const Val& a, const Val& b)
    {
        if (a.t != b.t) return false;
        if (isInt(a.t)) return a.i == b.i; if (isUint(a.t)) return a.u == b.u; if (isFloat(a.t)) return a.d == b.d; if (a.t == Type::string || a.t == Type::uuid) return a.s == b.s;
        if (a.t == Type::Vector) { if (a.e.size() != b.e.size()) return false; for (size_t k = 0; k < a.e.size(); ++k) if (!eq(a.e[k], b.e[k])) return false; return true; }
        if (a.p.size() != b.p.size()) return false;
        for (auto& [k, v] : a.p) { auto it = b.p.find(k); if (it == b.p.end() || !eq(v, it->second)) return false; } return true;
    }
    inline bool less(const Val& a, const Val& b);
    // order of optional values: absent before present
    inline bool oless(const Val* a, const Val* b) { return b ? (a ? less(*a, *b) : true) : false; }
    inline bool pless(const std::map<unsigned, Val>& a, const std::map<unsigned, Val>& b, uint32_t incl, const std::vector<unsigned>& order)
    {
        for (unsigned k : order) { if (!(incl >> k & 1u)) continue; auto x = a.find(k), y = b.find(k); const Val* X = x == a.end() ? nullptr : &x->second; const Val* Y = y == b.end() ? nullptr : &y->second; if (oless(X, Y)) return true; if (oless(Y, X)) return false; }
        return false;
    }
    inline bool less(const Val& a, const Val& b)
    {
        if (a.t == Type::property_set) return (a.u & b.u) == a.u && a.u != b.u;
        if (isInt(a.t)) return a.i < b.i; if (isUint(a.t)) return a.u < b.u; if (isFloat(a.t)) return a.d < b.d; if (a.t == Type::string || a.t == Type::uuid) return a.s < b.s;
        if (a.t == Type::Vector) { for (size_t k = 0; k < a.e.size() && k < b.e.size(); ++k) { if (less(a.e[k], b.e[k])) return true; if (less(b.e[k], a.e[k])) return false; } return a.e.size() < b.e.size(); }
        std::vector<unsigned> o; for (unsigned k = 0; k < 32; ++k) o.push_back(k); return pless(a.p, b.p, ~0u, o);
    }
    inline std::string str(const Val& v)
    {
        std::string r; if (isInt(v.t)) return std::to_string(v.i); if (isUint(v.t)) return std::to_string(v.u); if (isFloat(v.t)) { char b[40]; std::snprintf(b, 40, "%a", v.d); return b; } if (v.t == Type::string) return '"' + v.s + '"'; if (v.t == Type::uuid) return hex((const uint8_t*)v.s.data(), v.s.size());
        if (v.t == Type::Vector) { r = "["; for (auto& x : v.e) r += str(x) + ","; return r + "]"; } r = "{"; for (auto& [k, x] : v.p) r += std::to_string(k) + ":" + str(x) + ","; return r + "}";
    }
    using Props = std::map<unsigned, Val>;
    inline std::string str(const Props& p) { Val v; v.t = Type::Struct; v.p = p; return str(v); }
    inline bool eq(const Props& a, const Props& b) { Val x, y; x.t = y.t = Type::Struct; x.p = a; y.p = b; return eq(x, y); }
    inline unsigned tagBit(const PropertyDescriptor& pd) { uint32_t s = pd.set().toValue(); unsigned k = 0; while (!(s >> k & 1u)) ++k; return k; }
    // ---- real memory -> model
    inline Val snap(const Descriptor<>& d, const Typeless& v);
    inline Props snap(const Struct& s)
    {
        Props out; const PropertyArea& area = s._propertyArea(); uint32_t valid = area.validProperties().toValue();
        for (const PropertyDescriptor& pd : s._descriptor().propertyDescriptors()) if (valid >> tagBit(pd) & 1u) out[tagBit(pd)] = snap(pd.valueDescriptor(), *reinterpret_cast<const Typeless*>(reinterpret_cast<const char*>(&area) + pd.offset()));
        return out;
    }
    inline double secs(const Typeless& v) { double d; std::memcpy(&d, &v, 8); return d; }
    inline Val snap(const Descriptor<>& d, const Typeless& v)
    {
        Val r; r.t = d.type(); auto as = [&](auto* p) -> decltype(auto) { using T = std::remove_pointer_t<decltype(p)>; return *reinterpret_cast<const T*>(&v); };
        switch (r.t)
        {
            case Type::boolean: r.u = *reinterpret_cast<const uint8_t*>(&v); break;
            case Type::int8: r.i = as((int8_t*)0); break; case Type::int16: r.i = as((int16_t*)0); break; case Type::int32: case Type::Enum: r.i = as((int32_t*)0); break; case Type::int64: r.i = as((int64_t*)0); break;
            case Type::uint8: r.u = as((uint8_t*)0); break; case Type::uint16: r.u = as((uint16_t*)0); break; case Type::uint32: case Type::property_set: r.u = as((uint32_t*)0); break; case Type::uint64: r.u = as((uint64_t*)0); break;
            case Type::float32: r.d = as((float*)0); break; case Type::float64: r.d = as((double*)0); break;
            case Type::timepoint: case Type::steady_timepoint: case Type::duration: r.d = secs(v); break;
            case Type::string: r.s = as((std::string*)0); break; case Type::uuid: r.s.assign(reinterpret_cast<const char*>(&v), 16); break;
            case Type::Vector: { auto& vec = reinterpret_cast<const Vector<>&>(v); auto& vd_ = static_cast<const Descriptor<Vector<>>&>(d); for (size_t k = 0; k < vec.typelessSize(); ++k) r.e.push_back(snap(vd_.valueDescriptor(), vec.typelessAt(k))); break; }
            case Type::Struct: r.p = snap(reinterpret_cast<const Struct&>(v)); break;
        }
        return r;
    }
    // ---- model -> real memory
    inline void put(const Descriptor<>& d, Typeless& v, const Val& x);
    inline void put(Struct& s, const Props& p)
    {
        PropertyArea& area = s._propertyArea();
        for (const PropertyDescriptor& pd : s._descriptor().propertyDescriptors()) { auto it = p.find(tagBit(pd)); if (it == p.end()) continue; Typeless& t = *reinterpret_cast<Typeless*>(reinterpret_cast<char*>(&area) + pd.offset()); if (!(area.validProperties().toValue() >> tagBit(pd) & 1u)) { pd.valueDescriptor().constructInPlace(t); area.validProperties() += pd.set(); } put(pd.valueDescriptor(), t, it->second); }
    }
    inline void put(const Descriptor<>& d, Typeless& v, const Val& x)
    {
        auto as = [&](auto* p) -> decltype(auto) { using T = std::remove_pointer_t<decltype(p)>; return *reinterpret_cast<T*>(&v); };
        switch (d.type())
        {
            case Type::boolean: *reinterpret_cast<uint8_t*>(&v) = uint8_t(x.u); break;
            case Type::int8: as((int8_t*)0) = int8_t(x.i); break; case Type::int16: as((int16_t*)0) = int16_t(x.i); break; case Type::int32: case Type::Enum: as((int32_t*)0) = int32_t(x.i); break; case Type::int64: as((int64_t*)0) = x.i; break;
            case Type::uint8: as((uint8_t*)0) = uint8_t(x.u); break; case Type::uint16: as((uint16_t*)0) = uint16_t(x.u); break; case Type::uint32: case Type::property_set: as((uint32_t*)0) = uint32_t(x.u); break; case Type::uint64: as((uint64_t*)0) = x.u; break;
            case Type::float32: as((float*)0) = float(x.d); break; case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: std::memcpy(&v, &x.d, 8); break;
            case Type::string: as((std::string*)0) = x.s; break; case Type::uuid: std::memcpy(&v, x.s.data(), 16); break;
            case Type::Vector: { auto& vec = reinterpret_cast<Vector<>&>(v); auto& vd_ = static_cast<const Descriptor<Vector<>>&>(d); vd_.resize(vec, x.e.size()); for (size_t k = 0; k < x.e.size(); ++k) put(vd_.valueDescriptor(), vec.typelessAt(k), x.e[k]); break; }
            case Type::Struct: put(reinterpret_cast<Struct&>(v), x.p); break;
        }
    }
    // ---- generation (small domains, so that equal values are frequent)
    inline int spice = 0; // >0: more extreme scalars
    inline Val gen(const Descriptor<>& d, int depth = 0);
    inline Props gen(const StructDescriptor& sd, int depth, unsigned fill)
    {
        Props p; for (const PropertyDescriptor& pd : sd.propertyDescriptors()) if (below(100) < fill) p[tagBit(pd)] = gen(pd.valueDescriptor(), depth); return p;
    }
    inline Val gen(const Descriptor<>& d, int depth)
    {
        Val r; r.t = d.type(); auto w = [&](int bits, bool sg) { uint64_t x = chance(50) ? below(3) : chance(30) ? ~0ull - below(2) : chance(30) ? (1ull << below(64)) - below(2) : rnd(); if (bits < 64) { x &= (1ull << bits) - 1; if (sg && x >> (bits - 1) & 1) x |= ~0ull << bits; } return x; };
        switch (r.t)
        {
            case Type::boolean: r.u = below(2); break; case Type::int8: r.i = int64_t(w(8, true)); break; case Type::int16: r.i = int64_t(w(16, true)); break; case Type::int32: r.i = int64_t(w(32, true)); break; case Type::int64: r.i = int64_t(w(64, true)); break;
            case Type::Enum: { auto& en = static_cast<const EnumDescriptor&>(d).enumeratorsTypeless(); r.i = en.empty() ? 0 : *reinterpret_cast<const int32_t*>(&en[below(en.size())].valueTypeless()); break; }
            case Type::uint8: r.u = w(8, false); break; case Type::uint16: r.u = w(16, false); break; case Type::uint32: case Type::property_set: r.u = w(32, false); break; case Type::uint64: r.u = w(64, false); break;
            case Type::float32: r.d = float(chance(60) ? double(below(4)) - 1 : (double(rnd() % 2000001) - 1000000) / 7); break;
            case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: r.d = chance(60) ? double(below(4)) - 1 : (double(rnd() % 2000001) - 1000000) / 7 * (chance(20) ? 1e9 : 1); break;
            case Type::string: { size_t n = chance(70) ? below(3) : chance(80) ? below(40) : below(300); for (size_t k = 0; k < n; ++k) r.s += char(chance(80) ? 'a' + below(3) : 1 + below(255)); break; }
            case Type::uuid: r.s.assign(16, '\0'); for (auto& c : r.s) c = char(chance(70) ? below(2) : below(256)); break;
            case Type::Vector: { auto& vd_ = static_cast<const Descriptor<Vector<>>&>(d); for (size_t n = chance(80) ? below(4) : below(30); n--;) r.e.push_back(gen(vd_.valueDescriptor(), depth + 1)); break; }
            case Type::Struct: r.p = gen(static_cast<const StructDescriptor&>(d), depth + 1, 50); break;
        }
        return r;
    }
    // ---- dynamic twins of static types
    inline Registry& registry() { static Registry* r = new Registry{}; return *r; }
    inline const Descriptor<DynamicStruct>& dynamicTwin(const StructDescriptor& sd)
    {
        static std::map<std::string, const Descriptor<DynamicStruct>*> cache; auto& c = cache[sd.name()];
        if (!c) { dots::io::DescriptorConverter conv{ registry() }; auto data = conv(sd); data.name = "Dyn" + sd.name(); c = &static_cast<const Descriptor<DynamicStruct>&>(static_cast<const StructDescriptor&>(conv(data))); }
        return *c;
    }
    inline std::vector<unsigned> order(const StructDescriptor& sd) { std::vector<unsigned> o; for (auto& pd : sd.propertyDescriptors()) o.push_back(tagBit(pd)); return o; }
}
