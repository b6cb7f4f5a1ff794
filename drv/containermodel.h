// An independent model of the instance container (a sorted list of property snapshots).
#pragma once
#include "values.h"
#include "dots/Container.h"
#include "dots/ContainerPool.h"
using namespace vm;
#define CK(E, K) vd::check(E, K, #E)
static uint32_t mask() { switch (below(5)) { case 0: return ~0u; case 1: return 0; case 2: return uint32_t(rnd()); case 3: return uint32_t(rnd() | rnd()); default: return 1u << below(32); } }
struct Info { std::optional<int> op; std::optional<uint32_t> last, createdFrom; std::optional<double> created, modified; };
struct Entry { Props p; Info ci; };
static double num(const dots::types::timepoint_t& t) { double d; std::memcpy(&d, &t, 8); return d; }
template <class P> static std::optional<uint32_t> ou(const P& p) { return p.isValid() ? std::optional<uint32_t>(*p) : std::nullopt; }
template <class P> static std::optional<double> ot(const P& p) { return p.isValid() ? std::optional<double>(num(*p)) : std::nullopt; }
static bool sameInfo(const dots::types::DotsCloneInformation& c, const Info& i)
{
    return (c.lastOperation.isValid() ? std::optional<int>(int(*c.lastOperation)) : std::nullopt) == i.op && ou(c.lastUpdateFrom) == i.last && ou(c.createdFrom) == i.createdFrom && ot(c.created) == i.created && ot(c.modified) == i.modified && c.localUpdateTime.isValid();
}
static std::string infoStr(const dots::types::DotsCloneInformation& c) { std::string r = "op " + (c.lastOperation.isValid() ? std::to_string(int(*c.lastOperation)) : "-"); auto u = [&](auto o) { r += o ? " " + std::to_string(*o) : std::string(" -"); }; u(ou(c.lastUpdateFrom)); u(ot(c.created)); u(ou(c.createdFrom)); u(ot(c.modified)); return r; }
struct Model
{
    const StructDescriptor& sd; uint32_t keys = 0; std::vector<unsigned> korder; std::vector<Entry> e;   // sorted by key
    Model(const StructDescriptor& s) : sd(s) { for (auto& pd : sd.propertyDescriptors()) if (pd.isKey()) { keys |= 1u << tagBit(pd); korder.push_back(tagBit(pd)); } }
    bool kless(const Props& a, const Props& b) const { return pless(a, b, keys, korder); }
    int find(const Props& k) const { for (size_t n = 0; n < e.size(); ++n) if (!kless(e[n].p, k) && !kless(k, e[n].p)) return int(n); return -1; }
    void apply(Props& a, const Props& b, uint32_t incl) const { for (unsigned k = 0; k < 32; ++k) if ((incl & ~keys) >> k & 1u) { auto it = b.find(k); if (it == b.end()) a.erase(k); else a[k] = it->second; } }
};
// a key value from a small domain, so that operations meet existing instances
static Val keyVal(const Descriptor<>& d)
{
    Val r; r.t = d.type();
    if (isInt(r.t)) r.i = int64_t(below(4)) - 1; else if (isUint(r.t)) r.u = below(3); else if (r.t == Type::string) r.s = std::string(below(3), char('a' + below(2))); else r = gen(d); return r;
}
static Props inst(const Model& m, unsigned fill) { Props p = gen(m.sd, 0, fill); for (auto& pd : m.sd.propertyDescriptors()) if (pd.isKey()) p[tagBit(pd)] = keyVal(pd.valueDescriptor()); return p; }
static AnyStruct mkAny(const StructDescriptor& sd, const Props& p) { AnyStruct a{ sd }; put(*a, p); return a; }
static bool sameContents(const dots::Container<>& c, const Model& m, std::string* why)
{
    if (c.size() != m.e.size() || c.empty() != m.e.empty()) { *why = "size " + std::to_string(c.size()) + " expected " + std::to_string(m.e.size()); return false; }
    size_t n = 0;
    for (auto& [s, ci] : c)
    {
        Props p = snap(*s); if (n >= m.e.size()) { *why = "more elements"; return false; }
        if (!eq(p, m.e[n].p)) { *why = "element " + std::to_string(n) + " is " + str(p) + " expected " + str(m.e[n].p); return false; }
        if (!sameInfo(ci, m.e[n].ci)) { *why = "clone information of element " + std::to_string(n) + ": " + infoStr(ci); return false; } ++n;
    }
    size_t k = 0; bool same = true; c.forEach([&](const Struct& s) { same = same && k < m.e.size() && eq(snap(s), m.e[k].p); ++k; }); if (!same || k != n) { *why = "forEach differs"; return false; }
    k = 0; c.forEachClone([&](const dots::Container<>::value_t& v) { same = same && k < m.e.size() && eq(snap(*v.first), m.e[k].p) && sameInfo(v.second, m.e[k].ci); ++k; }); if (!same || k != n) { *why = "forEachClone differs"; return false; }
    return true;
}
