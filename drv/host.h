// Mock channel and listener: everything the library hands to a channel is recorded, everything a peer sends is injected.
#pragma once
#include "containermodel.h"
#include "dots/asio.h"
#include "dots/HostTransceiver.h"
#include "dots/Connection.h"
#include "dots/io/Channel.h"
#include "dots/io/Listener.h"
#include "dots/tools/logging.h"
#include "VhClean.dots.h"
#include "DotsMsgHello.dots.h"
#include "DotsMsgConnect.dots.h"
#include "DotsMsgConnectResponse.dots.h"
#include "DotsMsgError.dots.h"
#include "DotsMember.dots.h"
#include "DotsCacheInfo.dots.h"
#include "DotsClearCache.dots.h"
#include "DotsEcho.dots.h"
#include "DotsDescriptorRequest.dots.h"
#include "StructDescriptorData.dots.h"
#include "EnumDescriptorData.dots.h"
using namespace dots;
struct Sent { types::DotsHeader h; std::string type; Props p; };
struct MockChannel : io::Channel
{
    std::vector<Sent> out; bool failing = false, armed = false, dead = false; int hook = 0; std::set<std::string> exported; std::string bad;
    MockChannel(key_t k) : io::Channel(k) { initEndpoints(io::Endpoint{ "tcp://127.0.0.1:1001" }, io::Endpoint{ "tcp://127.0.0.2:2002" }); }
    void asyncReceiveImpl() override { armed = true; }
    using io::Channel::transmitImpl;
    void transmitImpl(const types::DotsHeader& h, const Struct& s) override
    {
        if (failing) throw std::runtime_error{ "channel failure" };
        out.push_back({ h, s._descriptor().name(), snap(s) });
    }
    bool inject(types::DotsHeader h, AnyStruct s) { if (!armed) return false; armed = false; processReceive(io::Transmission{ std::move(h), std::move(s) }); return true; }
    template <class T> bool inject(const T& s) { types::DotsHeader h; h.typeName = s._descriptor().name(); h.attributes = s._validProperties(); return inject(h, AnyStruct{ s }); }
    void breakDown(const char* why) { if (!armed) return; armed = false; processError(why); }
};
struct MockListener : io::Listener { bool armed = false; void asyncAcceptImpl() override { armed = true; } void accept(io::channel_ptr_t c) { armed = false; processAccept(std::move(c)); } };
