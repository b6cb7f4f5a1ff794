// Instantiates the real host and connection for the VC generator (no logic of its own).
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <string>
#include <vector>
#include <optional>
#include <memory>
#include <atomic>
#include <exception>
#include <stdexcept>
#include <sstream>
#include "dots/asio.h"
#include "dots/type/AnyStruct.h"
#include <DotsHeader.dots.h>
#include <DotsCloneInformation.dots.h>
#include "dots/Container.h"
#include "dots/ContainerPool.h"
#include "dots/io/Transmission.h"
#include "dots/io/Channel.h"
#include <boost/program_options.hpp>
#include <boost/beast.hpp>
#include "dots/io/channels/TcpListener.h"
#include "dots/io/channels/UdsListener.h"
#include "dots/io/channels/WebSocketListener.h"
#include "dots/tools/logging.h"
#define private public
#define protected public
#include "dots/Connection.h"
#include "dots/Transceiver.h"
#include "dots/HostTransceiver.h"
#include "lib/src/Connection.cpp"
#include "lib/src/HostTransceiver.cpp"
#include "lib/src/io/Transmission.cpp"
#include "lib/src/Transceiver.cpp"
#undef private
#undef protected
using namespace dots; using namespace dots::type; using H = HostTransceiver; using C = Connection;
extern "C" {
int vh_member_event(int n) { switch (n) { case 0: return int(DotsMemberEvent::join); case 1: return int(DotsMemberEvent::leave); default: return int(DotsMemberEvent::kill); } }
int vh_state(int n) { switch (n) { case 0: return int(DotsConnectionState::suspended); case 1: return int(DotsConnectionState::connecting); case 2: return int(DotsConnectionState::early_subscribe); case 3: return int(DotsConnectionState::connected); default: return int(DotsConnectionState::closed); } }
bool vh_cached(const StructDescriptor& d) { return d.cached(); }
bool vh_internal(const StructDescriptor& d) { return d.internal(); }
bool vh_substruct(const StructDescriptor& d) { return d.substructOnly(); }
const void* vh_name(const StructDescriptor& d) { return &d.name(); }
uint32_t vh_keys(const Struct& x) { return x._keyProperties().toValue(); }
uint32_t vh_props(const Struct& x) { return x._properties().toValue(); }
const void* vh_type_name(const DotsHeader& h) { return &*h.typeName; }
void vh_transmit(H& h, const io::Transmission& t) { h.transmit(t); }
void vh_publish(H& h, const Struct& s, bool has, uint32_t p, bool r) { if (has) h.HostTransceiver::publish(s, PropertySet{p}, r); else h.HostTransceiver::publish(s, std::nullopt, r); }
bool vh_handle_transmission(H& h, C& c, io::Transmission& t) { return h.handleTransmission(c, std::move(t)); }
void vh_handle_transition(H& h, C& c, std::exception_ptr& e) { h.handleTransitionImpl(c, e); }
void vh_handle_member(H& h, C& c, const DotsMember& m) { h.handleMemberMessage(c, m); }
void vh_handle_clear(H& h, C& c, const DotsClearCache& m) { h.handleClearCache(c, m); }
void vh_handle_echo(H& h, C& c, const DotsEcho& m) { h.handleEchoRequest(c, m); }
void vh_transmit_container(H& h, C& c, const Container<>& x) { h.transmitContainer(c, x); }
bool vh_reporting(const C& c) { return c.m_transitionHandler.has_value(); }
bool vh_receiving(const C& c) { return c.m_receiveHandler.has_value(); }
const void* vh_expected_type(const C& c) { return std::get<0>(c.m_expectedSystemType); }
uint32_t vh_expected_props(const C& c) { return std::get<1>(c.m_expectedSystemType).toValue(); }
bool vh_is_state(const C& c, DotsConnectionState s) { return c.state() == s; }
bool vh_has_secret(const C& c) { return c.m_authSecret.has_value(); }
uint32_t vh_self(const C& c) { return c.selfId(); }
uint32_t vh_peer(const C& c) { return c.peerId(); }
bool vh_receive(C& c, io::Transmission& t) { return c.handleReceive(std::move(t)); }
void vh_close(C& c, std::exception_ptr& e) { c.handleClose(e); }
void vh_error(C& c, std::exception_ptr& e) { c.handleError(e); }
void vh_hello(C& c, const DotsMsgHello& m) { c.handleHello(m); }
void vh_connect(C& c, const DotsMsgConnect& m) { c.handleConnect(m); }
void vh_authorization(C& c, const DotsMsgConnectResponse& m) { c.handleAuthorizationRequest(m); }
void vh_preload_client_finished(C& c, const DotsMsgConnect& m) { c.handlePreloadClientFinished(m); }
void vh_preload_finished(C& c, const DotsMsgConnectResponse& m) { c.handlePreloadFinished(m); }
void vh_peer_error(C& c, const DotsMsgError& m) { c.handlePeerError(m); }
void vh_async(C& c, Registry& r, io::AuthManager* a, const std::string& n, C::receive_handler_t& h, C::transition_handler_t& t) { c.asyncReceive(r, a, n, std::move(h), std::move(t)); }
void vh_send(C& c, const Struct& s, bool has, uint32_t p, bool r) { if (has) c.transmit(s, PropertySet{p}, r); else c.transmit(s, std::nullopt, r); }
void vh_destroy(C& c) { c.~C(); }
void vh_set_state(C& c, DotsConnectionState s, std::exception_ptr& e) { c.setConnectionState(s, e); }
}
