// Run-time contract check of the host's fan-out: random histories of joins, publications, failures and closes against an independent model of every delivery.
#include "host.h"
struct Guest { std::shared_ptr<MockChannel> ch; uint32_t id = 0; bool open = true, failing = false; std::set<std::string> groups; std::vector<Sent> expect; size_t got = 0; bool mustClose = false; std::set<std::string> desc; };
static bool same(const types::DotsHeader& a, const types::DotsHeader& b, bool anySent)
{
    Props x = snap(a), y = snap(b); x.erase(7); y.erase(7); if (anySent) { x.erase(2); y.erase(2); } return eq(x, y);   // 7: serverSentTime, 2: sentTime
}
struct World
{
    asio::io_context ioc; std::unique_ptr<HostTransceiver> host; MockListener* lst = nullptr; std::vector<Guest> gs; std::vector<const StructDescriptor*> ds; std::vector<Model> models; std::string log; double clockT = 1; int closes = 0; bool graceful = false;
    void note(const std::string& s) { log += " " + s; if (log.size() > 3400) log = "..." + log.substr(log.size() - 3000); setCase(log); }
    Props key(const Model& m, const Props& p) { Props r; for (auto& [k, v] : p) if (m.keys >> k & 1u) r[k] = v; return r; }
    static std::string nm(const std::optional<int>& i) { return i ? std::to_string(*i) : "-"; }
    // ---- model
    void deliver(Guest& g, Sent s) { if (!g.open) return; if (g.failing) { return; } g.expect.push_back(std::move(s)); }
    void fan(const std::string& group, const Sent& s)
    {
        std::vector<Guest*> dirty;
        for (auto& g : gs) if (g.open && g.groups.count(group)) { if (g.failing) dirty.push_back(&g); else g.expect.push_back(s); }
        for (Guest* g : dirty) if (g->open) closed(*g);
    }
    void closed(Guest& g)
    {
        if (!g.open) return; g.open = false; ++closes; g.groups.clear();
        for (size_t k = 0; k < ds.size(); ++k) if (ds[k]->cleanup()) { std::vector<Props> l; for (auto& x : models[k].e) if (x.ci.last == g.id) l.push_back(x.p); for (auto& p : l) hostRemove(k, p); }
    }
    bool hostRemove(size_t k, const Props& p)
    {
        Model& m = models[k]; int at = m.find(p); if (at < 0) return false; Props full = m.e[size_t(at)].p; m.e.erase(m.e.begin() + at);
        types::DotsHeader h; h.typeName = ds[k]->name(); h.attributes = PropertySet{ m.keys }; h.sender = 1u; h.removeObj = true; h.isFromMyself = true; fan(ds[k]->name(), { h, ds[k]->name(), full }); return true;
    }
    void apply(size_t k, const types::DotsHeader& h, const Props& p)
    {
        Model& m = models[k]; if (!ds[k]->cached()) return; int at = m.find(p); bool rm = h.removeObj == true; uint32_t in = h.attributes->toValue();
        if (rm) { if (at >= 0) m.e.erase(m.e.begin() + at); }
        else if (at < 0) { Entry n; n.p = p; n.ci = { int(types::DotsMt::create), ou(h.sender), ou(h.sender), ot(h.sentTime), ot(h.sentTime) }; size_t j = 0; while (j < m.e.size() && m.kless(m.e[j].p, p)) ++j; m.e.insert(m.e.begin() + long(j), n); }
        else { Entry& x = m.e[size_t(at)]; m.apply(x.p, p, in); x.ci.op = int(types::DotsMt::update); x.ci.last = ou(h.sender); x.ci.modified = ot(h.sentTime); }
    }
    void protocol(Guest& g, const Struct& s) { types::DotsHeader h; h.typeName = s._descriptor().name(); h.attributes = s._validProperties(); h.removeObj = false; deliver(g, { h, s._descriptor().name(), snap(s) }); }
    // ---- comparison after each step
    void compare()
    {
        for (size_t n = 0; n < gs.size(); ++n)
        {
            Guest& g = gs[n]; std::vector<Sent> got; auto& out = g.ch->out; std::string who = "guest " + std::to_string(n) + ": ";
            for (; g.got < out.size(); ++g.got)
            {
                Sent& s = out[g.got]; if (s.type == "StructDescriptorData" || s.type == "EnumDescriptorData") { if (!g.groups.count(s.type)) { std::string t = s.p[1].s; CK(g.desc.insert(s.type + t).second, "descriptor-sent-twice"); } continue; }
                if (s.type == "DotsMsgError") { if (g.open) vd::fail("error-sent-to-open-guest", who); continue; } got.push_back(s);
            }
            auto show = [&](const Sent& s) { return s.type + " " + str(snap(s.h)) + " " + str(s.p); };
            bool ordered = closes <= 1; std::vector<bool> used(got.size()); std::string miss;
            if (got.size() != g.expect.size()) miss = std::to_string(got.size()) + " deliveries, expected " + std::to_string(g.expect.size());
            for (size_t k = 0; k < g.expect.size(); ++k)
            {
                bool hit = false; for (size_t j = ordered ? k : 0; j < (ordered ? std::min(k + 1, got.size()) : got.size()) && !hit; ++j) if (!used[j] && got[j].type == g.expect[k].type && eq(got[j].p, g.expect[k].p) && same(got[j].h, g.expect[k].h, !g.expect[k].h.sentTime.isValid())) { used[j] = true; hit = true; }
                if (!hit) { miss += " missing: " + show(g.expect[k]) + (k < got.size() ? " got: " + show(got[k]) : ""); break; }
            }
            if (!miss.empty()) { for (size_t j = 0; j < got.size(); ++j) if (j >= g.expect.size() || !used[j]) { miss += " unexpected: " + show(got[j]); break; } vd::fail(got.size() > g.expect.size() ? "delivered-to-nonmember-or-twice" : got.size() < g.expect.size() ? "member-not-served" : "delivery-differs", who + miss); }
            g.expect.clear(); if (g.open) CK(g.ch->armed, "open-guest-not-received-from");
        }
        std::string why; for (size_t k = 0; k < ds.size(); ++k) if (ds[k]->cached()) { auto* c = host->pool().find(*ds[k]); if (!c) { CK(models[k].e.empty(), "host-cache"); } else if (!sameContents(*c, models[k], &why)) vd::fail("host-cache", ds[k]->name() + ": " + why); }
        closes = 0;
    }
    // ---- operations
    void connect()
    {
        gs.emplace_back(); Guest& g = gs.back(); g.ch = io::make_channel<MockChannel>(); note("connect" + std::to_string(gs.size() - 1)); lst->accept(g.ch); CK(lst->armed, "listener-stopped");
        if (g.ch->out.empty() || g.ch->out[0].type != "DotsMsgHello") { vd::fail("no-hello", ""); g.open = false; return; }
        bool preload = chance(50); types::DotsMsgConnect c; c.clientName = "guest" + std::to_string(gs.size()); c.preloadCache = preload; g.ch->inject(c);
        if (g.ch->out.size() != 2 || g.ch->out[1].type != "DotsMsgConnectResponse") { vd::fail("no-connect-response", ""); g.open = false; return; }
        g.id = uint32_t(g.ch->out[1].p[5].u); for (auto& o : gs) if (&o != &g) CK(o.id != g.id, "guest-id-not-unique"); CK(g.id > 1, "guest-id-not-unique"); g.got = 2;
        if (preload && chance(60)) { for (int n = int(below(3)); n-- > 0 && g.open;) join(int(gs.size()) - 1); if (chance(60)) { compare(); if (int k = some(); k >= 0 && chance(50) && &gs[size_t(k)] != &g) publish(k); else hostPublish(); } }
        if (preload && g.open) { compare(); types::DotsMsgConnect f; f.preloadClientFinished = true; g.ch->inject(f); types::DotsMsgConnectResponse r; r.preloadFinished = true; protocol(g, r); }
    }
    int some() { std::vector<int> l; for (int k = 0; k < int(gs.size()); ++k) if (gs[size_t(k)].open && gs[size_t(k)].ch->armed) l.push_back(k); return l.empty() ? -1 : l[below(l.size())]; }
    std::string group() { if (chance(8)) return "VhNoSuchType"; if (chance(5)) return "DotsClearCache"; return ds[pick()]->name(); }
    size_t pick() { return chance(30) ? 3 : below(ds.size()); }
    void join(int n)
    {
        Guest& g = gs[size_t(n)]; std::string grp = group(); types::DotsMember m; m.groupName = grp; m.event = types::DotsMemberEvent::join; if (chance(20)) m.client = 77u; note("join" + std::to_string(n) + ":" + grp); 
        g.groups.insert(grp);
        bool fails = false; for (size_t k = 0; k < ds.size(); ++k) if (ds[k]->name() == grp && ds[k]->cached())
        {
            uint32_t left = uint32_t(models[k].e.size());
            for (auto& x : models[k].e) { types::DotsHeader h; h.typeName = grp; h.fromCache = --left; h.removeObj = false; types::timepoint_t tp; double t = *x.ci.modified; std::memcpy((void*)&tp, &t, 8); h.sentTime = tp; uint32_t v = 0; for (auto& [b, w] : x.p) v |= 1u << b; h.attributes = PropertySet{ v }; h.sender = *x.ci.last; deliver(g, { h, grp, x.p }); }
            types::DotsCacheInfo ci; ci.typeName = grp; ci.endTransmission = true; protocol(g, ci); fails = g.failing;
        }
        if (fails) closed(g); g.ch->inject(m); compare();
    }
    void leave(int n) { Guest& g = gs[size_t(n)]; std::string grp = !g.groups.empty() && chance(70) ? *std::next(g.groups.begin(), long(below(g.groups.size()))) : group(); types::DotsMember m; m.groupName = grp; m.event = chance(12) ? types::DotsMemberEvent::kill : types::DotsMemberEvent::leave; note("leave" + std::to_string(n) + ":" + grp); if (m.event == types::DotsMemberEvent::leave) g.groups.erase(grp); g.ch->inject(m); compare(); }
    void badMember(int n) { Guest& g = gs[size_t(n)]; types::DotsMember m; if (chance(50)) m.groupName = group(); else m.event = types::DotsMemberEvent::join; note("badmember" + std::to_string(n)); closed(g); g.ch->inject(m); compare(); }
    void publish(int n)
    {
        size_t k = pick(); Model& m = models[k]; Props p = inst(m, unsigned(below(3)) * 40); if (!m.e.empty() && chance(60)) { auto& x = m.e[below(m.e.size())].p; for (auto& [b, v] : x) if (m.keys >> b & 1u) p[b] = v; }
        types::DotsHeader h; h.attributes = PropertySet{ mask() | (chance(50) ? m.keys : 0u) }; h.typeName = ds[k]->name(); { double t = clockT++; types::timepoint_t tp; std::memcpy((void*)&tp, &t, 8); h.sentTime = tp; } bool rm = chance(25); if (rm || chance(50)) h.removeObj = rm; if (chance(20)) h.sender = uint32_t(below(9)); if (chance(20)) h.isFromMyself = chance(50);
        Guest& g = gs[size_t(n)]; bool miss = m.keys && chance(4); if (miss) for (unsigned b = 0; b < 32; ++b) if (m.keys >> b & 1u) { p.erase(b); break; }
        note("publish" + std::to_string(n) + ":" + ds[k]->name() + (rm ? "-" : "") + (miss ? "!" : "")); types::DotsHeader e = h; e.sender = g.id; e.isFromMyself = false;
        bool throws = miss || (rm && !ds[k]->cached()); if (!throws) { apply(k, e, p); fan(ds[k]->name(), { e, ds[k]->name(), p }); } else closed(g);
        if (closes > 1) ++closes; g.ch->inject(h, mkAny(*ds[k], p)); compare();
    }
    void hostPublish()
    {
        size_t k = pick(); Model& m = models[k]; Props p = inst(m, unsigned(below(3)) * 40); if (!m.e.empty() && chance(60)) { auto& x = m.e[below(m.e.size())].p; for (auto& [b, v] : x) if (m.keys >> b & 1u) p[b] = v; }
        bool rm = chance(25), miss = m.keys && chance(4); if (miss) for (unsigned b = 0; b < 32; ++b) if (m.keys >> b & 1u) { p.erase(b); break; }
        note("hostpublish:" + ds[k]->name() + (rm ? "-" : "") + (miss ? "!" : "")); std::optional<PropertySet> in; if (chance(60)) in = PropertySet{ mask() }; uint32_t all = 0, v = 0; for (auto& pd : ds[k]->propertyDescriptors()) all |= 1u << tagBit(pd); for (auto& [b, w] : p) v |= 1u << b;
        types::DotsHeader e; e.typeName = ds[k]->name(); e.sender = 1u; e.removeObj = rm; e.isFromMyself = true; e.attributes = PropertySet{ in ? (in->toValue() | m.keys) & all : v };
        bool throws = miss || (rm && !ds[k]->cached()); AnyStruct a = mkAny(*ds[k], p); bool threw = false;
        // the time stamp is taken inside publish(): learn it from the cache
        if (!throws) { Sent s{ e, ds[k]->name(), p }; types::timepoint_t tp; double t = -1; std::memcpy((void*)&tp, &t, 8); e.sentTime = tp; apply(k, e, p); fan(ds[k]->name(), s); }
        try { host->publish(*a, in, rm); } catch (const std::exception&) { threw = true; } CK(threw == throws, "publish-exception");
        if (!throws && ds[k]->cached() && !rm) if (auto* c = host->pool().find(*ds[k])) if (auto* x = c->findClone(*a)) for (auto& y : m.e) { double now = num(*x->second.modified); if (y.ci.modified == -1.0) y.ci.modified = now; if (y.ci.created == -1.0) y.ci.created = now; }
        compare();
    }
    void clear(int n)
    {
        Guest& g = gs[size_t(n)]; types::DotsClearCache c; types::vector_t<types::string_t> names; std::set<std::string> l; for (auto* d : ds) if (chance(40)) { names.push_back(d->name()); l.insert(d->name()); } if (chance(20)) names.push_back("VhNoSuchType"); c.typeNames = names; note("clear" + std::to_string(n) + ":" + std::to_string(l.size()));
        closes += 2; for (size_t k = 0; k < ds.size(); ++k) if (l.count(ds[k]->name()) && ds[k]->cached()) { std::vector<Props> x; for (auto& q : models[k].e) x.push_back(q.p); for (auto& q : x) hostRemove(k, q); }
        types::DotsHeader h; h.typeName = c._descriptor().name(); h.attributes = c._validProperties(); types::DotsHeader e = h; e.sender = g.id; e.isFromMyself = false; fan("DotsClearCache", { e, "DotsClearCache", snap(c) }); g.ch->inject(h, AnyStruct{ c }); compare();
    }
    void echo(int n) { Guest& g = gs[size_t(n)]; types::DotsEcho q; q.request = chance(70); q.identifier = uint32_t(rnd()); q.data = std::string(below(4), 'x'); note("echo" + std::to_string(n)); bool rep = q.request == true; if (rep) { types::DotsEcho r = q; r.request = false; protocol(g, r); } bool fails = rep && g.failing; if (fails) closed(g); g.ch->inject(q); compare(); }
    void requestDescriptors(int n) { Guest& g = gs[size_t(n)]; types::DotsDescriptorRequest r; std::set<std::string> w; types::vector_t<types::string_t> v; for (auto* d : ds) if (chance(50)) { v.push_back(d->name()); w.insert(d->name()); } bool white = chance(50); if (white) { if (v.empty()) { v.push_back("VhNoSuchType"); } r.whitelist = v; } else r.blacklist = v; note("descriptors" + std::to_string(n) + (white ? "+" : "-"));
        types::DotsCacheInfo ci; ci.endDescriptorRequest = true; protocol(g, ci); bool fails = g.failing; if (fails) closed(g); g.ch->inject(r); compare();
        if (!fails) for (auto* d : ds) if (white ? w.count(d->name()) : !w.count(d->name())) CK(g.desc.count("StructDescriptorData" + d->name()), "requested-descriptor-not-sent"); }
    void close(int n)
    {
        Guest& g = gs[size_t(n)]; int how = int(below(4)); note("close" + std::to_string(n) + "/" + std::to_string(how)); closes += 2; closed(g);
        if (how == 0) { types::DotsMsgError e; e.errorCode = 0; g.ch->inject(e); } else if (how == 1) { types::DotsMsgError e; if (chance(50)) e.errorCode = 3; if (chance(50)) e.errorText = "bad"; g.ch->inject(e); } else if (how == 2) g.ch->breakDown("connection reset"); else { types::DotsMsgHello e; e.serverName = "x"; e.authChallenge = 1u; g.ch->inject(e); }
        compare();
    }
    // a local handler that reacts to removals by removing something else
    std::vector<Subscription> subs; int depth = 0; bool reacting = false;
    void onEvent(size_t k, const Event<>& ev)
    {
        if (!reacting || depth > 3 || ev.header().removeObj != true || !chance(60)) return; auto* c = host->pool().find(*ds[k]); if (!c || c->empty()) return; auto it = c->begin(); std::advance(it, long(below(c->size()))); AnyStruct a{ it->first }; Props p = snap(*a); note("react" + str(key(models[k], p)));
        closes += 2; ++depth; if (models[k].find(p) >= 0) hostRemove(k, p); host->remove(*a); --depth;
    }
    void run()
    {
        ds = { &VhRich::_Descriptor(), &VhPlain::_Descriptor(), &VhUncached::_Descriptor(), &VhClean::_Descriptor() }; for (auto* s : ds) models.emplace_back(*s); gs.reserve(64);
        host = std::make_unique<HostTransceiver>("host", ioc); auto l = std::make_unique<MockListener>(); lst = l.get(); host->listen(std::move(l)); log = "";
        if (chance(30)) { reacting = true; log = "(reacting handler)"; subs.push_back(host->subscribe(*ds[3], Transceiver::event_handler_t<>{ [this](const Event<>& e) { onEvent(3, e); } })); }
        for (int n = 2 + int(below(4)); n-- > 0;) { connect(); compare(); }
        for (int n = 0; n < 4; ++n) if (int k = some(); k >= 0) join(k);
        for (int step = 0; step < 30; ++step)
        {
            int n = some(); if (n < 0) { if (gs.size() > 12) break; connect(); compare(); continue; } bool failing = gs[size_t(n)].failing; count();
            switch (below(20))
            {
                case 0: case 1: case 2: case 3: join(n); break; case 4: leave(n); break; case 5: case 6: case 7: case 8: case 9: case 10: publish(n); break; case 11: case 12: hostPublish(); break;
                case 13: if (gs.size() < 12) { connect(); compare(); } break; case 14: if (chance(50)) clear(n); break; case 15: echo(n); break; case 16: requestDescriptors(n); break; case 17: if (chance(50)) close(n); else if (chance(20)) badMember(n); break;
                default: if (chance(60)) for (int c = 1 + int(below(3)); c-- > 0;) if (int b = some(); b >= 0 && !gs[size_t(b)].failing) { note("break" + std::to_string(b)); gs[size_t(b)].failing = gs[size_t(b)].ch->failing = true; } break;
            }
        }
        note("destroy"); for (auto& g : gs) g.got = g.ch->out.size(); reacting = false; subs.clear(); host.reset();
        for (auto& g : gs) { size_t goodbye = 0; for (size_t k = g.got; k < g.ch->out.size(); ++k) goodbye += g.ch->out[k].type == "DotsMsgError"; CK(g.open && !g.failing ? goodbye == 1 && g.ch->out.size() == g.got + 1 : g.ch->out.size() == g.got, "host-shutdown"); }
    }
};
int main(int argc, char** argv)
{
    init(argc, argv); dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg); int n = thorough() ? 20000 : 1500;
    for (int k = 0; k < n && vd::fails < 30; ++k) { World w; w.run(); }
    return done();
}
