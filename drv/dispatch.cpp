// Run-time contract check of Dispatcher: random re-entrant histories against an independent model of which handler is called when, and with which event.
#include "containermodel.h"
#include "dots/Dispatcher.h"
using namespace dots;
struct H { int kind, type; uint64_t id = ~0ull; bool known = false, removed = false; };
struct Frame { int kind; int type; int stage = 0; std::set<int> due[2], called[2]; const io::Transmission* tr = nullptr; Props p; bool remove = false, cached = false, aborted = false; int mt = 0; bool have = false; Entry upd; uint64_t epoch = 0; int replayed = -1; std::set<size_t> seen; std::vector<std::pair<Props, bool>> init; uint32_t left = 0; };
struct World
{
    std::vector<const StructDescriptor*> ds; std::vector<Model> models; std::vector<H> hs; std::vector<Frame*> st; std::string log; uint64_t epoch = 0; int budget = 0, token = 0, expect = -1; int expectType = -1; bool errThrows = false, errThrew = false; std::unique_ptr<Dispatcher> d;
    struct Boom : std::runtime_error { int t; Boom(int x) : std::runtime_error("boom"), t(x) {} };
    struct ErrBoom {};
    void note(const std::string& s) { log += " " + s; if (log.size() > 3400) log = "..." + log.substr(log.size() - 3000); setCase(log); }
    bool live(int h) { return !hs[size_t(h)].removed; }
    std::set<int> liveSet(int kind, int type) { std::set<int> r; for (int k = 0; k < int(hs.size()); ++k) if (hs[size_t(k)].kind == kind && hs[size_t(k)].type == type && live(k)) r.insert(k); return r; }
    void complete(Frame& f, int stage) { if (f.aborted) return; for (int h : f.due[stage]) if (live(h)) CK(f.called[stage].count(h), stage ? "event-handler-not-called" : "transmission-handler-not-called"); }
    void beginEvent(Frame& f)
    {
        if (f.stage == 1) return; complete(f, 0); f.stage = 1; Model& m = models[size_t(f.type)]; auto& h = f.tr->header(); std::string why; ++epoch;
        Info ni; ni.last = ou(h.sender); ni.modified = ot(h.sentTime);
        if (f.cached)
        {
            int at = m.find(f.p); uint32_t in = h.attributes->toValue(); f.have = true;
            if (f.remove) { if (at < 0) f.have = false; else { Entry x = m.e[size_t(at)]; m.e.erase(m.e.begin() + at); m.apply(x.p, f.p, in); x.ci.last = ni.last; x.ci.modified = ni.modified; x.ci.op = f.mt = int(types::DotsMt::remove); f.upd = x; } }
            else if (at < 0) { Entry n; n.p = f.p; f.mt = int(types::DotsMt::create); n.ci = { f.mt, ni.last, ni.last, ni.modified, ni.modified }; size_t k = 0; while (k < m.e.size() && m.kless(m.e[k].p, f.p)) ++k; m.e.insert(m.e.begin() + long(k), n); f.upd = n; }
            else { Entry& x = m.e[size_t(at)]; m.apply(x.p, f.p, in); x.ci.op = f.mt = int(types::DotsMt::update); x.ci.last = ni.last; x.ci.modified = ni.modified; f.upd = x; }
            if (!sameContents(d->container(*ds[size_t(f.type)]), m, &why)) vd::fail("container-before-event", why);
        }
        else if (!f.remove) { f.have = true; f.mt = int(types::DotsMt::create); f.upd.p = f.p; f.upd.ci = { f.mt, std::nullopt, ni.last, ni.modified, std::nullopt }; }
        if (f.have) f.due[1] = liveSet(1, f.type); f.epoch = epoch;
    }
    static bool sameHeader(const types::DotsHeader& a, const types::DotsHeader& b) { return eq(snap(a), snap(b)); }
    void act(int self)
    {
        for (int n = int(below(3)); n > 0 && budget > 0; --n)
        {
            --budget;
            switch (below(8))
            {
                case 0: case 1: if (st.size() < 4) send(); break;
                case 2: remove(self); break;
                case 3: { std::vector<int> l; for (int k = 0; k < int(hs.size()); ++k) if (live(k) && hs[size_t(k)].known) l.push_back(k); if (!l.empty()) remove(l[below(l.size())]); break; }
                case 4: { std::vector<int> l; for (Frame* f : st) for (int g : { 0, 1 }) for (int h : f->called[g]) if (live(h) && hs[size_t(h)].known) l.push_back(h); if (!l.empty()) remove(l[below(l.size())]); break; }
                case 5: if (hs.size() < 40) add(int(below(2)), int(below(ds.size()))); break;
                default: break;
            }
        }
    }
    void boom(int type) { if (expect >= 0 || !chance(12)) return; note("throws"); expect = ++token; expectType = type; if (chance(30)) throw expect; throw Boom(expect); }
    void called(int h, Frame& f, int stage)
    {
        CK(expect < 0, "error-handler-not-called"); CK(live(h), "removed-handler-called"); CK(f.due[stage].count(h), "handler-called-unexpectedly"); CK(!f.called[stage].count(h), "handler-called-twice"); f.called[stage].insert(h); note("<" + std::to_string(h));
    }
    void onTransmission(int h, const io::Transmission& t)
    {
        if (st.empty()) { vd::fail("handler-called-unexpectedly", "no dispatch"); return; } Frame& f = *st.back();
        CK(f.kind == 0 && f.stage == 0 && hs[size_t(h)].kind == 0 && hs[size_t(h)].type == f.type, "transmission-handler-order"); CK(&t == f.tr || (sameHeader(t.header(), f.tr->header()) && eq(snap(*t.instance()), f.p)), "transmission-value");
        called(h, f, 0); count(); act(h); boom(f.type); note(">");
    }
    void onEvent(int h, const Event<>& ev)
    {
        if (st.empty()) { vd::fail("handler-called-unexpectedly", "no dispatch"); return; } Frame& f = *st.back(); count();
        if (f.kind == 1) { onReplay(h, ev, f); return; }
        beginEvent(f); called(h, f, 1); CK(hs[size_t(h)].kind == 1 && hs[size_t(h)].type == f.type, "event-handler-type");
        CK(sameHeader(ev.header(), f.tr->header()), "event-header"); CK(eq(snap(ev.transmitted()), f.p), "event-transmitted"); CK(&ev.descriptor() == ds[size_t(f.type)], "event-descriptor");
        CK(int(ev.mt()) == f.mt && ev.isCreate() == (f.mt == int(types::DotsMt::create)) && ev.isUpdate() == (f.mt == int(types::DotsMt::update)) && ev.isRemove() == (f.mt == int(types::DotsMt::remove)), "event-kind");
        Props up = snap(ev.updated()); if (f.epoch == epoch) { CK(eq(up, f.upd.p), "event-updated"); CK(sameInfo(ev.cloneInfo(), f.upd.ci), "event-clone-information"); CK(&ev() == &ev.updated() || eq(snap(ev()), up), "event-instance"); }
        CK(ev.newProperties() == *f.tr->header().attributes && ev.updatedProperties() == (*f.tr->header().attributes ^ ev.updated()._validProperties()), "event-properties");
        if (f.tr->header().isFromMyself.isValid()) CK(ev.isFromMyself() == *f.tr->header().isFromMyself, "event-from-myself");
        act(h); (void)snap(ev.updated()); boom(f.type); note(">");
    }
    void onReplay(int h, const Event<>& ev, Frame& f)
    {
        CK(h == f.replayed, "replay-to-other-handler"); Model& m = models[size_t(f.type)]; Props up = snap(ev.updated()); int at = m.find(up); note("<r" + std::to_string(h));
        CK(at >= 0, "replay-of-removed-instance"); CK(ev.isCreate() && !ev.isUpdate() && !ev.isRemove(), "replay-kind"); if (at < 0) return; CK(eq(up, m.e[size_t(at)].p) && eq(snap(ev.transmitted()), up) && sameInfo(ev.cloneInfo(), m.e[size_t(at)].ci), "replay-value");
        auto& hd = ev.header(); CK(hd.typeName.isValid() && *hd.typeName == ds[size_t(f.type)]->name() && hd.attributes.isValid() && *hd.attributes == ev.updated()._validProperties() && (!hd.removeObj.isValid() || !*hd.removeObj), "replay-header");
        CK(hd.fromCache.isValid() && *hd.fromCache < f.left, "replay-from-cache"); if (f.epoch == epoch && hd.fromCache.isValid()) CK(*hd.fromCache + 1 == f.left, "replay-from-cache"); if (hd.fromCache.isValid()) f.left = *hd.fromCache;
        bool found = false; for (size_t k = 0; k < f.init.size(); ++k) if (!m.kless(f.init[k].first, up) && !m.kless(up, f.init[k].first)) { CK(!f.init[k].second, "replay-twice"); f.init[k].second = true; found = true; }
        if (f.epoch == epoch) CK(found, "replay-of-new-instance");
        act(h); (void)snap(ev.updated()); note(">");
    }
    void add(int kind, int type)
    {
        int h = int(hs.size()); hs.push_back({ kind, type }); note("add" + std::to_string(h) + (kind ? "e" : "t") + std::to_string(type)); uint64_t id = 0; auto& sd = *ds[size_t(type)];
        auto keep = std::make_shared<int>(h);
        if (kind == 0) id = d->addTransmissionHandler(sd, [this, keep](const io::Transmission& t) { auto k = keep; onTransmission(*k, t); CK(*keep == *k, "handler-destroyed-while-running"); });
        else
        {
            Frame f{ 1, type }; f.replayed = h; Model& m = models[size_t(type)]; for (auto& x : m.e) f.init.push_back({ x.p, false }); f.left = uint32_t(m.e.size()); f.epoch = epoch; std::vector<Entry> before = m.e; st.push_back(&f);
            id = d->addEventHandler(sd, [this, keep](const Event<>& e) { auto k = keep; onEvent(*k, e); CK(*keep == *k, "handler-destroyed-while-running"); });
            st.pop_back(); if (f.epoch == epoch) for (auto& x : f.init) CK(x.second, "replay-incomplete"); else for (auto& x : f.init) { int at = m.find(x.first); bool recreated = at < 0 || m.e[size_t(at)].ci.created != before[size_t(&x - f.init.data())].ci.created; if (!recreated) CK(x.second, "replay-incomplete"); }
        }
        for (auto& x : hs) CK(!x.known || x.id != id, "handler-id-not-unique"); hs[size_t(h)].id = id; hs[size_t(h)].known = true; note("=" + std::to_string(h));
    }
    void remove(int h)
    {
        H& x = hs[size_t(h)]; if (!x.known || x.removed) return; note("rm" + std::to_string(h)); bool bad = chance(10);
        if (bad) { bool threw = false; try { uint64_t id = chance(50) ? 1000000 : x.id; auto& sd = *ds[size_t(id == x.id ? (x.type + 1) % int(ds.size()) : x.type)]; if (x.kind) d->removeEventHandler(sd, id); else d->removeTransmissionHandler(sd, id); } catch (const std::exception&) { threw = true; } CK(threw, "removing-unknown-handler"); return; }
        x.removed = true; try { if (x.kind) d->removeEventHandler(*ds[size_t(x.type)], x.id); else d->removeTransmissionHandler(*ds[size_t(x.type)], x.id); } catch (const std::exception& e) { vd::fail("removing-handler-throws", e.what()); }
    }
    double clockT = 1;
    void send()
    {
        int type = int(below(ds.size())); Model& m = models[size_t(type)]; auto& sd = *ds[size_t(type)]; Props p = inst(m, unsigned(below(3)) * 40); if (!m.e.empty() && chance(60)) { auto& x = m.e[below(m.e.size())].p; for (auto& [k, v] : x) if (m.keys >> k & 1u) p[k] = v; }
        types::DotsHeader h; h.attributes = PropertySet{ mask() | (chance(50) ? m.keys : 0u) }; h.typeName = sd.name(); if (!chance(10)) h.sender = uint32_t(below(5)); { double t = clockT++; types::timepoint_t tp; std::memcpy(&tp, &t, 8); h.sentTime = tp; } if (chance(70)) h.isFromMyself = chance(50); bool rm = chance(35); if (rm || chance(50)) h.removeObj = rm;
        Frame f{ 0, type }; f.p = p; f.remove = rm; f.cached = sd.cached(); f.due[0] = liveSet(0, type); io::Transmission tr{ h, mkAny(sd, p) }; f.tr = &tr; note("send" + std::to_string(type) + (rm ? "-{" : "{")); st.push_back(&f); bool threw = false;
        try { d->dispatch(tr); }
        catch (const ErrBoom&) { f.aborted = true; }
        catch (const std::logic_error& e) { threw = true; (void)e; }
        beginEventIfDue(f, threw); st.pop_back(); note("}"); CK(expect < 0, "error-handler-not-called"); CK(sameHeader(tr.header(), h), "transmission-changed");
        CK(eq(snap(*tr.instance()), p), "transmission-changed");
    }
    void beginEventIfDue(Frame& f, bool threw)
    {
        if (f.aborted && f.stage == 0) return; beginEvent(f); complete(f, 1); CK(f.aborted || threw == (f.remove && !f.cached), "uncached-remove-throws");
    }
    void onError(const StructDescriptor& sd, std::exception_ptr e)
    {
        int t = -1; try { std::rethrow_exception(e); } catch (const Boom& b) { t = b.t; } catch (int x) { t = x; } catch (...) {}
        CK(expect >= 0 && t == expect, "error-handler-exception"); CK(expectType >= 0 && &sd == ds[size_t(expectType)], "error-handler-type"); expect = -1; if (errThrows && chance(30)) { note("error handler throws"); throw ErrBoom{}; }
    }
    void run()
    {
        d = std::make_unique<Dispatcher>(Dispatcher::error_handler_t{ [this](const StructDescriptor& sd, std::exception_ptr e) { onError(sd, e); } });
        ds = { &VhRich::_Descriptor(), &VhPlain::_Descriptor(), &VhUncached::_Descriptor(), &dynamicTwin(VhRich::_Descriptor()) }; for (auto* s : ds) models.emplace_back(*s); errThrows = chance(15); log = errThrows ? "(error handler may throw)" : ""; std::string why;
        for (int n = 0; n < 2 + int(below(6)); ++n) { budget = 0; add(int(below(2)), int(below(ds.size()))); }
        for (int step = 0; step < 14; ++step)
        {
            budget = int(below(10)); switch (below(8)) { case 0: add(int(below(2)), int(below(ds.size()))); break; case 1: if (!hs.empty()) remove(int(below(hs.size()))); break; default: send(); }
            for (size_t k = 0; k < ds.size(); ++k) if (!sameContents(d->container(*ds[k]), models[k], &why)) { vd::fail("container-contents", why); return; }
        }
        budget = 0; if (chance(50)) { for (int h = 0; h < int(hs.size()); ++h) while (hs[size_t(h)].known && !hs[size_t(h)].removed) remove(h); for (int k = 0; k < 3; ++k) send(); }
        else if (chance(50)) { note("clear"); d->clear(); for (auto& x : hs) x.removed = true; for (int k = 0; k < 3; ++k) send(); add(1, 0); add(0, 1); send(); send(); }
    }
};
int main(int argc, char** argv)
{
    init(argc, argv); int n = thorough() ? 60000 : 6000;
    for (int k = 0; k < n && vd::fails < 50; ++k) { World w; w.run(); }
    return done();
}
