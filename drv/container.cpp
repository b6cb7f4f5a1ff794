// Run-time contract check of Container / ContainerPool against an independent map model (random histories).
#include "containermodel.h"
static void history(const StructDescriptor& sd, const char* kind, int len)
{
    Model m{ sd }; dots::Container<> c{ sd }; std::string log; unsigned fillBase = unsigned(below(3)) * 50; std::vector<std::pair<dots::Container<>::node_t, Entry>> nodes; std::string why;
    CK(&c.descriptor() == &sd, "descriptor");
    for (int step = 0; step < len; ++step)
    {
        Props p = inst(m, chance(30) ? unsigned(below(3)) * 50 : fillBase); if (!m.e.empty() && chance(50)) { auto& x = m.e[below(m.e.size())].p; for (auto& [k, v] : x) if (m.keys >> k & 1u || chance(60)) p[k] = v; }
        unsigned op = unsigned(below(10)); uint32_t in = mask(); dots::types::DotsHeader h; Info nh; bool attrs = !chance(8);
        if (attrs) h.attributes = PropertySet{ in };
        if (!chance(10)) { uint32_t s = uint32_t(below(5)); h.sender = s; nh.last = s; } if (!chance(10)) { double t = double(below(1000)); dots::types::timepoint_t tp; std::memcpy(&tp, &t, 8); h.sentTime = tp; nh.modified = t; }
        bool alias = false;
        log += " | " + std::string(op < 6 ? "insert" : op < 8 ? "remove" : op < 9 ? "find" : "clear?") + " " + str(p) + " in " + std::to_string(in) + (attrs ? "" : " no attributes"); if (log.size() > 3000) log = "..." + log.substr(log.size() - 2500);
        setCase(std::string(kind) + " " + sd.name() + log); count(!m.e.empty());
        AnyStruct a = mkAny(sd, p); int at = m.find(p); (void)alias;
        if (op < 6)
        {
            try
            {
                auto& r = c.insert(h, *a);
                if (at < 0) { Entry n; n.p = p; n.ci = { int(dots::types::DotsMt::create), nh.last, nh.last, nh.modified, nh.modified }; size_t k = 0; while (k < m.e.size() && m.kless(m.e[k].p, p)) ++k; m.e.insert(m.e.begin() + long(k), n); }
                else { CK(attrs, "update-without-attributes-accepted"); auto& x = m.e[size_t(at)]; m.apply(x.p, p, in); x.ci.op = int(dots::types::DotsMt::update); x.ci.last = nh.last; x.ci.modified = nh.modified; }
                auto& x = m.e[size_t(m.find(p))]; CK(eq(snap(*r.first), x.p), "insert-result"); CK(sameInfo(r.second, x.ci), "insert-info"); CK(c.findClone(*a) == &r, "insert-reference");
            }
            catch (const std::exception& ex) { vd::check(!attrs && at >= 0, "insert-throws", ex.what()); }
        }
        else if (op < 8)
        {
            try
            {
                auto node = c.remove(h, *a); CK(node.empty() == (at < 0), "remove-found");
                if (at >= 0) { CK(attrs, "remove-without-attributes-accepted"); Entry x = m.e[size_t(at)]; m.e.erase(m.e.begin() + at); m.apply(x.p, p, in); x.ci.op = int(dots::types::DotsMt::remove); x.ci.last = nh.last; x.ci.modified = nh.modified; if (!node.empty()) { CK(eq(snap(*node.key()), x.p), "removed-value"); CK(sameInfo(node.mapped(), x.ci), "removed-info"); if (chance(30)) nodes.emplace_back(std::move(node), x); } }
            }
            catch (const std::exception& ex) { vd::check(!attrs && at >= 0, "remove-throws", ex.what()); }
        }
        else if (op == 8 || !chance(10))
        {
            // look up by key only
            Props k; for (auto& [t, v] : p) if (m.keys >> t & 1u) k[t] = v; AnyStruct b = mkAny(sd, k); auto* f = c.findClone(chance(50) ? *b : *a); auto* g = c.find(*b); bool threw = false;
            CK((f != nullptr) == (at >= 0) && (g != nullptr) == (at >= 0), "find");
            if (f && at >= 0) { CK(eq(snap(*f->first), m.e[size_t(at)].p) && sameInfo(f->second, m.e[size_t(at)].ci), "find-value"); CK(g == &*f->first, "find-instance"); CK(&c.getClone(*b) == f && &c.get(*b) == g, "get"); }
            else { try { c.getClone(*b); } catch (const std::exception&) { threw = true; } CK(threw, "get-missing"); threw = false; try { c.get(*b); } catch (const std::exception&) { threw = true; } CK(threw, "get-missing"); }
        }
        else { c.clear(); m.e.clear(); }
        vd::check(eq(snap(*a), p), "argument-changed", "argument changed");
        if (!sameContents(c, m, &why)) { vd::fail("contents", why); return; }
    }
    for (auto& [n, x] : nodes) { CK(eq(snap(*n.key()), x.p), "node-value"); CK(sameInfo(n.mapped(), x.ci), "node-info"); }
    size_t mem = sizeof(dots::Container<>) + c.size() * sizeof(dots::Container<>::value_t); for (auto& [s, ci] : c) { (void)ci; mem += s->_totalMemoryUsage(); } CK(c.totalMemoryUsage() == mem, "memory-usage");
}
template <class T> static dots::Container<>& poolGet(dots::ContainerPool& p) { return p.get<T>(); }
static void poolHistory()
{
    dots::ContainerPool pool; const dots::ContainerPool& cp = pool; std::vector<const StructDescriptor*> ds{ &VhRich::_Descriptor(), &VhPlain::_Descriptor(), &VhDeep::_Descriptor(), &dynamicTwin(VhRich::_Descriptor()), &dynamicTwin(VhPlain::_Descriptor()) };
    std::map<const StructDescriptor*, const dots::Container<>*> in; std::map<const StructDescriptor*, size_t> sizes; std::string log; std::vector<dots::ContainerPool::node_t> nodes;
    for (int step = 0; step < 40; ++step)
    {
        auto* d = ds[below(ds.size())]; unsigned op = unsigned(below(8)); bool has = in.count(d) > 0; log += " " + std::to_string(op) + ":" + d->name(); setCase("pool" + log); count(true); bool threw = false;
        switch (op)
        {
            case 0: { auto& c = pool.get(*d); CK(&c.descriptor() == d, "pool-type"); if (has) CK(&c == in[d], "pool-stable"); else CK(c.empty(), "pool-new-empty"); in[d] = &c; break; }
            case 1: { auto& c = cp.get(*d); CK(&c.descriptor() == d, "pool-type"); if (has) CK(&c == in[d], "pool-stable"); in[d] = &c; break; }
            case 2: { try { auto& c = pool.get(*d, false); CK(has && &c == in[d], "pool-get-existing"); } catch (const std::exception&) { threw = true; } CK(threw == !has, "pool-get-missing"); break; }
            case 3: { auto* c = pool.find(*d); CK(c == (has ? in[d] : nullptr), "pool-find"); CK(cp.find(*d) == c, "pool-find"); break; }
            case 4: { auto* c = pool.find(std::string_view{ d->name() }); CK(c == (has ? in[d] : nullptr), "pool-find-name"); CK(cp.find(std::string_view{ d->name() }) == c, "pool-find-name"); break; }
            case 5: { try { auto& c = pool.get(std::string_view{ d->name() }); CK(has && &c == in[d], "pool-get-name"); } catch (const std::exception&) { threw = true; } CK(threw == !has, "pool-get-name"); break; }
            case 6: { try { auto n = pool.remove(*d); CK(has && &n.mapped() == in[d] && n.key() == d, "pool-remove"); if (chance(50)) nodes.push_back(std::move(n)); in.erase(d); sizes.erase(d); } catch (const std::exception&) { threw = true; } CK(threw == !has, "pool-remove-missing"); break; }
            default: if (has) { Model m{ *d }; dots::types::DotsHeader h; h.attributes = PropertySet{ ~0u }; h.sender = 1u; AnyStruct a = mkAny(*d, inst(m, 30)); pool.get(*d).insert(h, *a); sizes[d] = in[d]->size(); }
        }
        CK(pool.size() == in.size() && pool.empty() == in.empty(), "pool-size"); size_t n = 0; for (auto& [k, c] : pool) { ++n; CK(in.count(k) && in[k] == &c, "pool-iterate"); } CK(n == in.size(), "pool-iterate");
        n = 0; pool.forEach([&](const dots::Container<>& c) { ++n; CK(in.count(&c.descriptor()) && in[&c.descriptor()] == &c && c.size() == sizes[&c.descriptor()], "pool-foreach"); }); CK(n == in.size(), "pool-foreach");
        size_t mem = 0; for (auto& [k, c] : in) { (void)k; mem += c->totalMemoryUsage(); } CK(pool.totalMemoryUsage() == mem, "pool-memory");
        for (auto* x : ds) CK(pool.find(std::string_view{ x->name() }) == (in.count(x) ? in[x] : nullptr), "pool-find-name");
        {   // a name that is a variation of a type name is found only if it is the name of another contained type
            std::string n = d->name(); switch (below(6)) { case 0: n.resize(below(n.size() + 1)); break; case 1: n += char('A' + below(26)); break; case 2: n.erase(0, 1 + below(n.size())); break; case 3: n[below(n.size())] ^= 0x20; break; case 4: n += '\0'; break; default: n[n.size() - 1] += 1; }
            const dots::Container<>* expect = nullptr; for (auto& [x, c] : in) if (x->name() == n) expect = c;
            CK(pool.find(std::string_view{ n }) == expect, "pool-find-name");
        }
    }
}
int main(int argc, char** argv)
{
    init(argc, argv); int n = thorough() ? 6000 : 500;
    std::vector<const StructDescriptor*> st{ &VhRich::_Descriptor(), &VhDeep::_Descriptor(), &VhPlain::_Descriptor(), &VhOne::_Descriptor() };
    for (int k = 0; k < n; ++k) for (auto* s : st) { history(*s, "static", 8 + int(below(20))); history(dynamicTwin(*s), "dynamic", 8 + int(below(20))); }
    for (int k = 0; k < n * 2; ++k) poolHistory();
    return done();
}
