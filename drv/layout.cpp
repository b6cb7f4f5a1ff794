// Run-time check of the descriptor conversion and the layout of the dynamic types it creates: random struct descriptions, valid and invalid, against an independent oracle.
#include "values.h"
#include <algorithm>
#include <StructDescriptorData.dots.h>
#include <EnumDescriptorData.dots.h>
using namespace vm; using namespace dots::types;
#define CK(E, K) vd::check(E, K, #E)
static void off(size_t al, size_t prev, size_t size)
{
    setCase("alignment=" + std::to_string(al) + " previous=" + std::to_string(prev) + " size=" + std::to_string(size)); count();
    for (size_t o : { PropertyOffset::Next(al, prev, size).offset(), size_t(PropertyOffset::Next(al, prev, size)) })
    { CK(o % al == 0, "offset-alignment"); CK(o >= prev + size, "offset-overlap"); CK(o - (prev + size) < al, "offset-minimal"); }
    size_t f = PropertyOffset::First(al, size).offset(); CK(f % al == 0 && f >= size && f - size < al, "offset-first");
}
static const char* const fundamentals[] = { "bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "property_set", "timepoint", "steady_timepoint", "duration", "uuid", "string" };
struct P { std::optional<std::string> name, type; std::optional<uint32_t> tag; std::optional<bool> key; };
struct World
{
    Registry reg; dots::io::DescriptorConverter conv{ reg }; std::set<std::string> enums, structs; unsigned n = 0; // struct / enum types known to the registry
    std::map<std::string, std::pair<std::vector<P>, unsigned>> made;
    World()
    {
        for (Descriptor<>* d : { (Descriptor<>*)&Descriptor<VhEnum>::Instance(), (Descriptor<>*)&VhSub::_Descriptor(), (Descriptor<>*)&VhDeep::_Descriptor(), (Descriptor<>*)&VhPlain::_Descriptor(), (Descriptor<>*)&VhOne::_Descriptor() }) { reg.registerType(*d, false); (d->type() == Type::Enum ? enums : structs).insert(d->name()); }
    }
    static bool fund(const std::string& t) { return std::find(std::begin(fundamentals), std::end(fundamentals), t) != std::end(fundamentals); }
    bool known(const std::string& t) { return fund(t) || enums.count(t) || structs.count(t); }
    bool resolvable(const std::string& t) { if (known(t)) return true; if (t.rfind("vector<", 0) == 0 && t.back() == '>') return known(t.substr(7, t.size() - 8)); return false; }
    std::string pick(std::set<std::string>& s) { auto it = s.begin(); std::advance(it, below(s.size())); return *it; }
    std::string typeName() { std::string t = chance(50) ? fundamentals[below(std::size(fundamentals))] : chance(70) ? pick(structs) : pick(enums); if (chance(30)) t = "vector<" + t + ">"; return t; }
    void makeEnum()
    {
        EnumDescriptorData d; d.name = "E" + std::to_string(++n); auto& es = d.elements.emplace(); std::string txt; uint32_t tag = 1; int32_t v = int32_t(rnd());
        for (size_t k = below(6); k--;) { EnumElementDescriptor e; e.name = "e" + std::to_string(tag); e.tag = tag; e.enum_value = v; txt += " " + std::to_string(tag) + "=" + std::to_string(v); tag += 1 + uint32_t(below(9)); v += 1 + int32_t(below(1000)); es.push_back(e); }
        setCase("enum" + txt); count(); EnumDescriptor& r = conv(d); enums.insert(*d.name);
        CK(r.name() == *d.name, "enum-name"); CK(r.enumerators().size() == es.size(), "enum-elements"); for (size_t k = 0; k < es.size(); ++k) { CK(r.enumerators()[k].tag() == *es[k].tag && r.enumerators()[k].name() == *es[k].name && r.enumerators()[k].value() == *es[k].enum_value, "enum-elements"); CK(&r.enumeratorFromTag(*es[k].tag) == &r.enumerators()[k] && &r.enumeratorFromName(*es[k].name) == &r.enumerators()[k] && &r.enumeratorFromValue(*es[k].enum_value) == &r.enumerators()[k], "enum-lookup"); }
        EnumDescriptorData b = conv(static_cast<const EnumDescriptor&>(r)); CK(*b.name == *d.name && b.elements->size() == es.size(), "enum-round-trip"); for (size_t k = 0; k < es.size() && k < b.elements->size(); ++k) { auto& y = (*b.elements)[k]; CK(*y.tag == *es[k].tag && *y.name == *es[k].name && *y.enum_value == *es[k].enum_value, "enum-round-trip"); }
        CK(&conv(d) == &r, "enum-again");
    }
    void makeStruct()
    {
        std::vector<P> ps; unsigned flags = unsigned(below(64)); bool hasFlags = chance(85), hasProps = true; std::string name = "S" + std::to_string(++n); size_t cnt = chance(80) ? below(9) : below(33); bool bad = chance(25); std::vector<uint32_t> tags; for (uint32_t t = 0; t < 32; ++t) tags.push_back(t); for (size_t k = 31; k; --k) std::swap(tags[k], tags[below(k + 1)]);
        if (chance(50)) std::sort(tags.begin(), tags.begin() + cnt);
        for (size_t k = 0; k < cnt; ++k) { P p; p.name = "p" + std::to_string(k); p.tag = tags[k]; p.key = chance(30); p.type = typeName(); ps.push_back(p); }
        if (bad && !ps.empty()) { P& p = ps[below(ps.size())]; switch (below(8)) { case 0: p.tag = 32 + uint32_t(below(3)); break; case 1: p.tag = uint32_t(rnd()); break; case 2: p.tag = ps[below(ps.size())].tag; break; case 3: p.type = "NoSuchType"; break; case 4: p.type = "vector<NoSuchType>"; break; case 5: p.type = chance(50) ? "" : "vector<"; break; case 6: switch (below(4)) { case 0: p.name.reset(); break; case 1: p.type.reset(); break; case 2: p.tag.reset(); break; default: p.key.reset(); } break; default: p.tag = 31 + 32 * uint32_t(below(3)); } }
        if (bad && ps.empty()) hasProps = false;
        std::string txt = name + " flags " + (hasFlags ? std::to_string(flags) : "none"); for (auto& p : ps) txt += " [" + (p.tag ? std::to_string(*p.tag) : "-") + " " + p.name.value_or("-") + " " + p.type.value_or("-") + (p.key ? *p.key ? " key" : "" : " key?") + "]"; setCase(txt); count(!ps.empty());
        StructDescriptorData d; d.name = name; if (hasProps) d.properties.emplace(); if (hasFlags) { auto& f = d.flags.emplace(); auto set = [&](auto& p, unsigned b) { if (flags >> b & 1u) p = true; else if (chance(50)) p = false; }; set(f.cached, 0); set(f.internal, 1); set(f.persistent, 2); set(f.cleanup, 3); set(f.local, 4); set(f.substructOnly, 5); }
        for (auto& p : ps) { StructPropertyData x; if (p.name) x.name = *p.name; if (p.tag) x.tag = *p.tag; if (p.key) x.isKey = *p.key; if (p.type) x.type = *p.type; d.properties->push_back(x); }
        bool ok = hasProps; std::set<uint32_t> seen; for (auto& p : ps) if (!p.name || !p.tag || !p.key || !p.type || *p.tag > 31 || !seen.insert(*p.tag).second || !resolvable(*p.type)) ok = false;
        StructDescriptor* sd = nullptr; std::string err; try { sd = &conv(d); } catch (const std::exception& e) { err = e.what(); }
        if (!ok) { CK(sd == nullptr, "invalid-description-accepted"); CK(reg.findType(name) == nullptr, "invalid-description-registered"); return; }
        if (!sd) { fail("valid-description-rejected", err); return; }
        if (!hasFlags) flags = 0;
        structs.insert(name); made[name] = { ps, flags };
        CK(&conv(d) == sd, "conversion-not-stable"); CK(reg.findStructType(name) == sd, "not-registered");
        layout(*sd, ps, flags); roundTrip(*sd, ps, flags, hasFlags); values(static_cast<const Descriptor<DynamicStruct>&>(*sd));
    }
    void layout(const StructDescriptor& sd, const std::vector<P>& ps, unsigned flags)
    {
        auto& pds = sd.propertyDescriptors(); if (!CK(pds.size() == ps.size(), "property-count")) return;
        CK(sd.cached() == (flags & 1u) && sd.internal() == bool(flags & 2u) && sd.persistent() == bool(flags & 4u) && sd.cleanup() == bool(flags & 8u) && sd.local() == bool(flags & 16u) && sd.substructOnly() == bool(flags & 32u), "flags");
        size_t area = sd.size() - sd.areaOffset(); CK(sd.areaOffset() >= sizeof(DynamicStruct) && sd.size() >= sd.areaOffset() + sizeof(PropertyArea), "area"); CK(sd.areaOffset() % alignof(PropertyArea) == 0, "area-alignment"); uint32_t all = 0, keys = 0, dyn = 0; unsigned subs = 0;
        for (size_t k = 0; k < pds.size(); ++k)
        {
            auto& pd = pds[k]; auto& vd = pd.valueDescriptor(); size_t lo = pd.offset(), hi = lo + vd.size(), al = vd.alignment();
            CK(pd.name() == *ps[k].name && pd.tag() == *ps[k].tag && pd.isKey() == *ps[k].key, "property"); CK(pd.set().toValue() == 1u << *ps[k].tag, "property-set"); CK(vd.name() == *ps[k].type, "property-type");
            CK(vd.size() > 0 && al > 0 && (al & (al - 1)) == 0, "type-size"); CK(lo % al == 0 && (sd.areaOffset() + lo) % al == 0, "alignment"); CK(sd.alignment() % al == 0, "struct-alignment"); CK(lo >= sizeof(PropertyArea), "overlaps-valid-mask"); CK(hi <= area, "outside-instance");
            for (size_t j = 0; j < k; ++j) { size_t l2 = pds[j].offset(), h2 = l2 + pds[j].valueDescriptor().size(); CK(hi <= l2 || h2 <= lo, "overlap"); }
            all |= 1u << *ps[k].tag; if (*ps[k].key) keys |= 1u << *ps[k].tag; if (vd.usesDynamicMemory()) dyn |= 1u << *ps[k].tag; if (vd.type() == Type::Struct) ++subs;
            if (vd.type() == Type::string || vd.type() == Type::Vector) CK(vd.usesDynamicMemory(), "uses-dynamic-memory");
        }
        CK(sd.size() % sd.alignment() == 0, "size-alignment"); CK(sd.properties().toValue() == all && sd.keyProperties().toValue() == keys && sd.dynamicMemoryProperties().toValue() == dyn && sd.numSubStructs() == subs, "summary-sets");
        CK(sd.usesDynamicMemory() == (dyn != 0) || !sd.usesDynamicMemory() == (dyn == 0), "summary-dynamic");
    }
    void roundTrip(const StructDescriptor& sd, const std::vector<P>& ps, unsigned flags, bool)
    {
        StructDescriptorData b = conv(sd); CK(*b.name == sd.name() && b.properties->size() == ps.size(), "round-trip"); auto& f = *b.flags; unsigned g = (*f.cached ? 1u : 0) | (*f.internal ? 2u : 0) | (*f.persistent ? 4u : 0) | (*f.cleanup ? 8u : 0) | (*f.local ? 16u : 0) | (*f.substructOnly ? 32u : 0); CK(g == flags, "round-trip-flags");
        for (size_t k = 0; k < ps.size() && k < b.properties->size(); ++k) { auto& y = (*b.properties)[k]; CK(*y.name == *ps[k].name && *y.tag == *ps[k].tag && *y.isKey == *ps[k].key && *y.type == *ps[k].type, "round-trip-property"); }
    }
    void values(const Descriptor<DynamicStruct>& dd)
    {
        Props a = gen(dd, 0, 80), b = gen(dd, 0, 80); DynamicStruct A{ dd }, B{ dd }; put(A, a); put(B, b); CK(eq(snap(A), a), "values"); CK(eq(snap(B), b), "values");
        DynamicStruct C{ A }; CK(eq(snap(C), a) && eq(snap(A), a), "copied-values"); C._assign(B); CK(eq(snap(C), b) && eq(snap(B), b), "assigned-values"); C._swap(A); CK(eq(snap(C), a) && eq(snap(A), b), "swapped-values"); C._clear(); CK(snap(C).empty(), "cleared");
        for (auto& pd : dd.propertyDescriptors()) { if (!C._get(pd.name()).isValid()) { C._get(pd.name()).emplace(); CK(C._validProperties().toValue() >> pd.tag() & 1u, "emplaced"); } } CK(C._validProperties() == dd.properties(), "all-valid");
    }
};
template <class T> static void statics(World& w)
{
    const StructDescriptor& sd = T::_Descriptor(); setCase("static type " + sd.name()); count(); auto& pds = sd.propertyDescriptors();
    for (size_t k = 0; k < pds.size(); ++k)
    {
        auto& vd = pds[k].valueDescriptor(); size_t lo = pds[k].offset(), hi = lo + vd.size(); CK(lo % vd.alignment() == 0 && (sd.areaOffset() + lo) % vd.alignment() == 0 && lo >= sizeof(PropertyArea) && sd.areaOffset() + hi <= sd.size(), "static-layout"); CK(pds[k].set().toValue() == 1u << pds[k].tag(), "static-set");
        for (size_t j = 0; j < k; ++j) { size_t l2 = pds[j].offset(); CK(hi <= l2 || l2 + pds[j].valueDescriptor().size() <= lo, "static-overlap"); CK(pds[j].tag() != pds[k].tag(), "static-tags"); }
    }
    CK(sd.size() == sizeof(T) && sd.alignment() == alignof(T), "static-size");
    StructDescriptorData d = w.conv(sd); CK(&w.conv(d) == w.reg.findStructType(sd.name()), "static-again"); d.name = "Twin" + sd.name(); auto& t = static_cast<const Descriptor<DynamicStruct>&>(static_cast<const StructDescriptor&>(w.conv(d)));
    std::vector<P> ps; for (auto& pd : pds) { P p; p.name = pd.name(); p.tag = pd.tag(); p.key = pd.isKey(); p.type = pd.valueDescriptor().name(); ps.push_back(p); }
    unsigned fl = (sd.cached() ? 1u : 0) | (sd.internal() ? 2u : 0) | (sd.persistent() ? 4u : 0) | (sd.cleanup() ? 8u : 0) | (sd.local() ? 16u : 0) | (sd.substructOnly() ? 32u : 0);
    w.layout(t, ps, fl); w.roundTrip(t, ps, fl, true); for (int n = 0; n < 20; ++n) w.values(t);
}
int main(int argc, char** argv)
{
    vd::init(argc, argv);
    for (size_t al : { 1, 2, 4, 8, 16, 32, 64, 128 }) for (size_t p = 0; p < 70; ++p) for (size_t s = 0; s < 70; ++s) off(al, p, s); for (int n = 0; n < 20000; ++n) off(size_t(1) << below(12), below(1u << 30), below(1u << 20));
    for (int r = 0, R = thorough() ? 1500 : 60; r < R; ++r)
    {
        World w; statics<VhSub>(w); statics<VhOne>(w); statics<VhPlain>(w); statics<VhDeep>(w); statics<StructDescriptorData>(w); if (r % 5 == 0) statics<VhRich>(w);
        for (int k = 0; k < 60; ++k) { if (k % 6 == 0) w.makeEnum(); w.makeStruct(); }
    }
    return done();
}
