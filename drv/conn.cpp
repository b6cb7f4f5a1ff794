// Run-time contract check of a connection: random histories of messages, errors and failures against an independent model of the protocol.
#include "host.h"
#include "dots/io/auth/AuthManager.h"
#include "dots/io/auth/Digest.h"
// a stand-in for the digest (the library's own needs a hash implementation that is not part of the tree)
namespace dots::io
{
    static Digest::value_t mix(uint64_t n, std::initializer_list<std::string_view> l) { Digest::value_t r{}; uint64_t h = n * 0x9e3779b97f4a7c15ull + 1; for (auto s : l) { for (char c : s) h = (h ^ uint8_t(c)) * 0x100000001b3ull; h = h * 31 + 7; } for (auto& b : r) { h = h * 6364136223846793005ull + 1442695040888963407ull; b = uint8_t(h >> 56); } return r; }
    Digest::Digest(const value_t& v) : m_value(v) {}
    Digest::Digest(std::string_view s) : m_value{} { for (size_t k = 0; k + 1 < s.size() && k / 2 < m_value.size(); k += 2) m_value[k / 2] = uint8_t(std::strtoul(std::string(s.substr(k, 2)).c_str(), nullptr, 16)); }
    Digest::Digest(Nonce n, std::string_view c, std::string_view u, std::string_view p) : m_value(mix(n.value(), { c, u, p })) {}
    Digest::Digest(Nonce n, Nonce c, std::string_view u, std::string_view p) : Digest(n, c.toString(), u, p) {}
    const Digest::value_t& Digest::value() const { return m_value; }
    std::string Digest::toString() const { std::string r; char b[4]; for (auto x : m_value) { std::snprintf(b, 4, "%02x", x); r += b; } return r; }
}
using S_ = types::DotsConnectionState;
enum What { Nothing, Std, Other };
[[noreturn]] static void raise(What w) { if (w == Other) throw 42; throw std::runtime_error{ "deliberate" }; }
struct Auth : io::AuthManager
{
    bool needed = false, reachable = true; uint64_t nonce = 0; std::string secret; bool accept = false; int asked = 0; What failing = Nothing;
    using io::AuthManager::AuthManager;
    std::optional<io::Nonce> requiresAuthentication(const io::Endpoint&, std::string_view) override { if (needed) return io::Nonce{ nonce }; return std::nullopt; }
    bool check(const io::Nonce& n, std::string_view c, std::string_view g, const io::Digest& d) { ++asked; if (failing) raise(failing); return needed ? n.value() == nonce && io::Digest{ n, c, g, secret }.value() == d.value() : accept; }
    bool verifyAuthentication(const io::Endpoint&, std::string_view g, io::Nonce n, io::Nonce c, const io::Digest& d) override { return check(n, c.toString(), g, d); }
    bool verifyAuthentication(const io::Endpoint&, std::string_view g, io::Nonce n, std::string_view c, const io::Digest& d) override { return check(n, c, g, d); }
};
struct Chan : MockChannel
{
    What how = Std; bool once = false; std::function<void()> during; using MockChannel::MockChannel;
    using io::Channel::transmitImpl;
    void transmitImpl(const types::DotsHeader& h, const Struct& s) override { if (failing) { if (once) failing = once = false; raise(how); } MockChannel::transmitImpl(h, s); }
    void broken(std::exception_ptr p) { if (!armed) return; armed = false; processError(p); }
};
static std::exception_ptr err(What w) { return w == Nothing ? nullptr : w == Std ? std::make_exception_ptr(std::runtime_error{ "broken" }) : std::make_exception_ptr(7); }
struct World
{
    asio::io_context ioc; HostTransceiver owner{ "owner", ioc }; Auth auth{ owner }; std::shared_ptr<Chan> ch; std::unique_ptr<Connection> c; std::string log;
    // ---- model
    bool host = false, managed = false, open = true, withSecret = false; std::string secret, self = "me", expected; uint32_t need = 0, selfId = 0, peerId = 0; S_ state = S_::suspended; std::vector<std::pair<S_, bool>> trans; std::vector<Sent> sent; std::vector<Sent> got; size_t seenT = 0, seenS = 0, seenG = 0; bool rearm = true;
    // ---- what happened
    std::vector<std::pair<S_, bool>> trans_; std::vector<Sent> got_; What rcv = Nothing, trn = Nothing; bool rcvGoOn = true; std::string step; What trnAt = Nothing; S_ trnState = S_::suspended;
    ~World() { trn = Nothing; c.reset(); }
    void note(const std::string& s) { log += " " + s; if (log.size() > 3400) log = "..." + log.substr(log.size() - 3000); setCase(log); }
    struct Fail { What w; };
    void mset(S_ s, bool x) { state = s; trans.push_back({ s, x }); if (trnAt != Nothing && trnState == s) { What w = trnAt; trnAt = Nothing; throw Fail{ w == Other ? Other : Std }; } }
    void msend(const Struct& s) { if (ch->failing) throw Fail{ ch->how }; sent.push_back({ {}, s._descriptor().name(), snap(s) }); }
    void mclose(bool x) { expected.clear(); mset(S_::closed, x); }
    void merror() { if (state == S_::connected) { try { msend(types::DotsMsgError{}); } catch (Fail) {} } mclose(true); }
    void done() { expected = "DotsMsgError"; need = 2; }
    void mreceive(const Struct& s, const types::DotsHeader& h)
    {
        Props p = snap(s); uint32_t v = s._validProperties().toValue(); std::string t = s._descriptor().name(); auto b = [&](unsigned k) { return p.count(k) && p[k].u; };
        if (state == S_::closed) { rearm = false; return; }
        if (t == "DotsMsgError") { rearm = false; if (p.count(1) && p[1].i == 0) mclose(false); else merror(); return; }
        if (t == "DotsMsgHello" || t == "DotsMsgConnect" || t == "DotsMsgConnectResponse")
        {
            if (t != expected || (need & ~v)) throw Fail{ Std };
            if (t == "DotsMsgHello")
            {
                types::DotsMsgConnect m; m.clientName = self; m.preloadCache = true;
                if (b(3)) { if (!withSecret) throw Fail{ Std }; m.cnonce = "?"; m.authChallengeResponse = "?"; } msend(m);
                expected = "DotsMsgConnectResponse"; need = 1u << 5 | 1u << 2 | 1u << 3;
            }
            else if (t == "DotsMsgConnectResponse")
            {
                if (state == S_::connecting)
                {
                    if (!b(2)) throw Fail{ Std }; selfId = uint32_t(p[5].u);
                    if (b(3)) { mset(S_::early_subscribe, false); types::DotsMsgConnect m; m.preloadClientFinished = true; msend(m); need = 1u << 4; } else { mset(S_::connected, false); done(); }
                }
                else { mset(S_::connected, false); done(); }
            }
            else if (state == S_::connecting)
            {
                bool ok = true; if (managed) { if (auth.failing) throw Fail{ auth.failing }; ok = auth.needed ? io::Digest{ io::Nonce{ auth.nonce }, p.count(5) ? p[5].s : "", p[1].s, auth.secret }.value() == io::Digest{ p.count(4) ? p[4].s : "" }.value() : auth.accept; }
                types::DotsMsgConnectResponse m; m.clientId = peerId; m.accepted = ok; m.preload = b(2); msend(m); if (!ok) throw Fail{ Std };
                if (b(2)) { mset(S_::early_subscribe, false); need = 1u << 3; } else { mset(S_::connected, false); done(); }
            }
            else { if (!b(3)) throw Fail{ Std }; mset(S_::connected, false); types::DotsMsgConnectResponse m; m.preloadFinished = true; msend(m); done(); }
            return;
        }
        if (state != S_::connected && state != S_::early_subscribe) throw Fail{ Std };
        if (s._keyProperties().toValue() & ~v) throw Fail{ Std };
        types::DotsHeader x = h; if (host || !x.sender.isValid()) x.sender = peerId; x.isFromMyself = *x.sender == selfId; got.push_back({ x, t, p }); if (rcv) throw Fail{ rcv }; rearm = rcvGoOn;
    }
    template <class F> void model(F f) { rearm = true; try { f(); } catch (Fail&) { rearm = false; try { merror(); } catch (Fail&) {} } }
    // ---- run
    void start()
    {
        host = chance(50); managed = host && chance(60); auth.needed = chance(60); auth.nonce = rnd(); auth.secret = chance(50) ? "secret" : ""; auth.accept = chance(60); if (chance(5)) auth.failing = chance(50) ? Std : Other; withSecret = !host && chance(60); secret = "guest secret";
        ch = io::make_channel<Chan>(); c = std::make_unique<Connection>(ch, host, withSecret ? std::optional<std::string>{ secret } : std::nullopt); note(host ? "host" : "guest"); if (managed) note(auth.needed ? "auth(challenge)" : auth.accept ? "auth(accepts)" : "auth(rejects)"); if (auth.failing) note("auth-fails"); if (withSecret) note("secret");
        CK(c->state() == S_::suspended && c->selfId() == (host ? 1u : 0u) && (host ? c->peerId() >= 2 : c->peerId() == 1), "initial-state"); selfId = c->selfId(); peerId = c->peerId();
        if (chance(4)) { c.reset(); note("destroyed"); trans.clear(); open = false; return; }
        if (chance(8)) { trnAt = trn = chance(50) ? Std : Other; trnState = below(2) ? S_::early_subscribe : S_::connected; note("transition-fails"); }
        c->asyncReceive(owner.registry(), managed ? &auth : nullptr, self,
            Connection::receive_handler_t{ [this](Connection& x, io::Transmission t) { CK(&x == c.get() || !c, "wrong-connection"); got_.push_back({ t.header(), t.instance()->_descriptor().name(), snap(*t.instance()) }); if (rcv) raise(rcv); return rcvGoOn; } },
            Connection::transition_handler_t{ [this](Connection& x, std::exception_ptr p) { trans_.push_back({ x.state(), p != nullptr }); if (trn != Nothing && x.state() == trnState) { What w = trn; trn = Nothing; raise(w); } } });
        state = S_::connecting; trans.push_back({ state, false });
        if (host) { types::DotsMsgHello m; m.serverName = self; bool n = managed && auth.needed; m.authChallenge = n ? auth.nonce : 0; if (n) m.authenticationRequired = true; sent.push_back({ {}, "DotsMsgHello", snap(m) }); expected = "DotsMsgConnect"; need = 6; } else { expected = "DotsMsgHello"; need = 6; }
    }
    void compare(bool wasArmed)
    {
        CK(trans_ == trans, "transitions-differ"); if (open) { CK(c->state() == state, "state-differs"); CK(c->selfId() == selfId && c->peerId() == peerId, "ids-differ"); CK(c->connected() == (state == S_::connected) && c->closed() == (state == S_::closed), "state-observers-differ"); }
        std::vector<Sent> out; for (auto& s : ch->out) if (s.type.find("DescriptorData") == std::string::npos) out.push_back(s); bool same = out.size() == sent.size(); std::string why;
        for (size_t k = seenS; k < std::min(out.size(), sent.size()); ++k)
        {
            Props a = out[k].p, b = sent[k].p; if (out[k].type != sent[k].type) { same = false; continue; }
            if (out[k].type == "DotsMsgError") { bool z = b.count(1) && b[1].i == 0, y = a.count(1) && a[1].i == 0; same = same && a.count(1) && z == y; continue; }
            if (b.count(5) && b[5].t == Type::string && b[5].s == "?") { if (a.count(4) && a.count(5)) same = same && a[4].s == io::Digest{ io::Nonce{ challenge }, a[5].s, self, secret }.toString(); else same = false; a.erase(4); a.erase(5); b.erase(4); b.erase(5); }
            if (!eq(a, b)) { same = false; why = str(a) + " expected " + str(b); }
        }
        if (!same) { for (auto& x : out) why += " " + x.type; why += " expected"; for (auto& x : sent) why += " " + x.type; vd::fail("messages-differ", why); } seenS = sent.size();
        bool ok = got_.size() == got.size(); for (size_t k = seenG; ok && k < got.size(); ++k)
        {
            types::DotsHeader a = got_[k].h, b = got[k].h; bool t = a.sentTime.isValid() && (!host || a.serverSentTime.isValid()) && (!b.sentTime.isValid() || num(*a.sentTime) == num(*b.sentTime)) && (host || (a.serverSentTime.isValid() == b.serverSentTime.isValid() && (!b.serverSentTime.isValid() || num(*a.serverSentTime) == num(*b.serverSentTime)))) && (!host || b.sentTime.isValid() || num(*a.sentTime) == num(*a.serverSentTime));
            if (!t) vd::fail("times-differ", str(snap(a))); Props x = snap(a), y = snap(b); for (unsigned n : { 2u, 7u }) { x.erase(n); y.erase(n); } if (!eq(x, y)) vd::fail("header-differs", str(x) + " expected " + str(y)); CK(got_[k].type == got[k].type && eq(got_[k].p, got[k].p), "delivered-instance-differs");
        }
        if (!ok) vd::fail(got_.size() > got.size() ? "delivered-when-not-allowed" : "not-delivered", std::to_string(got_.size()) + " deliveries, expected " + std::to_string(got.size())); seenG = got.size();
        if (wasArmed) CK(ch->armed == rearm, "receiving-goes-on-differs"); count(!got.empty() || trans.size() > 2);
    }
    uint64_t challenge = 0;
    template <class T> void fillBool(T& p) { if (chance(88)) p = chance(75); }
    void message()
    {
        std::string t = chance(78) && !expected.empty() && expected != "DotsMsgError" ? expected : std::string{}; types::DotsHeader h; AnyStruct a{ VhPlain::_Descriptor() };
        unsigned k = unsigned(below(100)); if (t.empty()) t = k < 8 ? "DotsMsgHello" : k < 20 ? "DotsMsgConnect" : k < 32 ? "DotsMsgConnectResponse" : k < 37 ? "DotsMsgError" : "instance"; bool full = chance(85);
        if (t == "DotsMsgHello") { types::DotsMsgHello m; if (full || chance(50)) m.serverName = "server"; if (full || chance(50)) m.authChallenge = rnd(); fillBool(m.authenticationRequired); if (m.authChallenge.isValid() && expected == t) challenge = *m.authChallenge; a = AnyStruct{ m }; }
        else if (t == "DotsMsgConnect")
        {
            types::DotsMsgConnect m; if (state == S_::connecting || chance(10)) { if (full || chance(50)) m.clientName = "guest"; if (full || chance(50)) m.preloadCache = chance(60); }
            if (state != S_::connecting || chance(10)) { if (full || chance(50)) m.preloadClientFinished = chance(85); }
            if (chance(60)) { m.cnonce = "0123456789abcdef"; m.authChallengeResponse = io::Digest{ io::Nonce{ chance(90) ? auth.nonce : 1 }, *m.cnonce, m.clientName.isValid() ? *m.clientName : "", chance(90) ? auth.secret : "wrong" }.toString(); if (chance(5)) m.cnonce.reset(); } a = AnyStruct{ m };
        }
        else if (t == "DotsMsgConnectResponse") { types::DotsMsgConnectResponse m; if (state == S_::connecting || chance(10)) { if (full || chance(50)) m.clientId = uint32_t(2 + below(9)); if (full || chance(50)) m.accepted = chance(85); if (full || chance(50)) m.preload = chance(60); if (chance(30)) m.serverName = "server"; } if (state != S_::connecting || chance(10)) { if (full || chance(50)) m.preloadFinished = chance(90); } a = AnyStruct{ m }; }
        else if (t == "DotsMsgError") { types::DotsMsgError m; if (chance(90)) m.errorCode = int(below(3)); if (chance(50)) m.errorText = "text"; a = AnyStruct{ m }; }
        else { VhPlain p; if (chance(93)) p.a = int(below(9)); if (chance(50)) p.b = rnd(); if (chance(50)) p.c = chance(50); a = AnyStruct{ p }; if (chance(50)) h.sender = chance(30) ? selfId : uint32_t(below(5)); if (chance(50)) h.sentTime = types::timepoint_t{ types::duration_t{ double(below(1000)) } }; if (chance(30)) h.serverSentTime = types::timepoint_t{ types::duration_t{ double(below(1000)) } }; if (chance(30)) h.fromCache = uint32_t(below(5)); if (chance(20)) h.isFromMyself = chance(50); h.removeObj = chance(20); rcv = chance(96) ? Nothing : chance(50) ? Std : Other; rcvGoOn = chance(97); }
        h.typeName = a->_descriptor().name(); h.attributes = a->_validProperties(); note("receive " + t + str(snap(*a)) + (t == "instance" ? str(snap(h)) + (rcv ? " handler fails" : rcvGoOn ? "" : " handler ends") : "")); if (!ch->armed) return;
        model([&] { mreceive(*a, h); }); ch->inject(h, a); rcv = Nothing; rcvGoOn = true;
    }
    void run()
    {
        setCase(""); start(); compare(false);
        for (int k = 0; k < 14 && open && vd::fails < 20; ++k)
        {
            bool armed = ch->armed;
            switch (below(16))
            {
                case 0: if (chance(40)) { What w = What(below(3)); if (w == Nothing) w = Std; note(std::string("channel breaks ") + (w == Std ? "std" : "other")); if (armed) { model([&] { throw Fail{ w }; }); ch->broken(err(w)); } } break;
                case 1: if (chance(40)) { What w = chance(50) ? Std : Other; note(std::string("owner reports error ") + (w == Std ? "std" : "other")); rearm = armed; try { merror(); } catch (Fail&) {} try { c->handleError(err(w)); } catch (...) {} } break;
                case 2: if (chance(30)) { ch->how = chance(50) ? Std : Other; ch->failing = !ch->failing; note(ch->failing ? "channel starts failing" : "channel stops failing"); rearm = armed; } else rearm = armed; break;
                case 3: { note("start again"); bool threw = false; rearm = armed; try { c->asyncReceive(owner.registry(), nullptr, "x", Connection::receive_handler_t{ [](Connection&, io::Transmission) { return true; } }, Connection::transition_handler_t{ [](Connection&, std::exception_ptr) {} }); } catch (const std::logic_error&) { threw = true; } CK(threw, "second-start-accepted"); break; }
                case 4: if (chance(25)) { note("destroy"); if (state != S_::closed) { bool told = true; if (state == S_::connected) { try { types::DotsMsgError m; m.errorCode = 0; msend(m); } catch (Fail&) { told = false; } } mclose(!told); } rearm = armed; open = false; c.reset(); } break;
                default: message();
            }
            if (!armed || !open) rearm = ch->armed; compare(armed && open && log.find("receive") != std::string::npos && last());
        }
    }
    bool last() { size_t p = log.rfind("receive "), q = std::max({ log.rfind("channel st"), log.rfind("owner rep"), log.rfind("start again"), log.rfind("destroy") }); return q == std::string::npos || p > q; }
};
int main(int argc, char** argv)
{
    init(argc, argv); dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg); int n = thorough() ? 60000 : 4000;
    for (int k = 0; k < n && vd::fails < 30; ++k) { World w; w.run(); }
    return done();
}
