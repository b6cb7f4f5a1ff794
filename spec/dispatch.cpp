// Instantiates the real dispatcher for the VC generator (no logic of its own).
#include <map>
#include <unordered_map>
#include <functional>
#include <string>
#include <vector>
#include <optional>
#include <memory>
#include <atomic>
#include <exception>
#include <stdexcept>
#include "dots/type/AnyStruct.h"
#include <DotsHeader.dots.h>
#include <DotsCloneInformation.dots.h>
#include "dots/Container.h"
#include "dots/ContainerPool.h"
#include "dots/io/Transmission.h"
#define private public
#include "dots/Event.h"
#include "dots/Dispatcher.h"
#undef private
#include "lib/src/Dispatcher.cpp"
#include "lib/src/Event.cpp"
#define private public
#include "lib/src/io/Transmission.cpp"
#undef private
using namespace dots; using namespace dots::type; using D = Dispatcher;
extern "C" {
void vh_to_transmission_handlers(D& d, const StructDescriptor& s, D::transmission_handlers_t& h, const io::Transmission& t) { d.dispatchToHandlers(s, h, t); }
void vh_to_event_handlers(D& d, const StructDescriptor& s, D::event_handlers_t& h, const Event<>& e) { d.dispatchToHandlers(s, h, e); }
void vh_dispatch_transmission(D& d, const io::Transmission& t) { d.dispatchTransmission(t); }
void vh_dispatch_event(D& d, const DotsHeader& h, const AnyStruct& s) { d.dispatchEvent(h, s); }
void vh_dispatch(D& d, const io::Transmission& t) { d.dispatch(t); }
uint64_t vh_add_transmission_handler(D& d, const StructDescriptor& s, D::transmission_handler_t& h) { return d.addTransmissionHandler(s, std::move(h)); }
uint64_t vh_add_event_handler(D& d, const StructDescriptor& s, D::event_handler_t<>& h) { return d.addEventHandler(s, std::move(h)); }
void vh_remove_transmission_handler(D& d, const StructDescriptor& s, uint64_t id) { d.removeTransmissionHandler(s, id); }
void vh_remove_event_handler(D& d, const StructDescriptor& s, uint64_t id) { d.removeEventHandler(s, id); }
void vh_clear(D& d) { d.clear(); }
void vh_event(Event<>* e, const DotsHeader& h, const Struct& t, const Struct& u, const DotsCloneInformation& c, const std::optional<DotsMt>& m) { new (e) Event<>(h, t, u, c, m); }
bool vh_event_is_create(const Event<>& e) { return e.isCreate(); }
bool vh_event_is_update(const Event<>& e) { return e.isUpdate(); }
bool vh_event_is_remove(const Event<>& e) { return e.isRemove(); }
const void* vh_event_transmitted(const Event<>& e) { return &e.transmitted(); }
const void* vh_event_updated(const Event<>& e) { return &e.updated(); }
const void* vh_event_call(const Event<>& e) { return &e(); }
const void* vh_event_header(const Event<>& e) { return &e.header(); }
const void* vh_event_clone(const Event<>& e) { return &e.cloneInfo(); }
int vh_event_mt(const Event<>& e) { return int(e.mt()); }
uint32_t vh_event_new(const Event<>& e) { return e.newProperties().toValue(); }
uint32_t vh_event_updated_properties(const Event<>& e) { return e.updatedProperties().toValue(); }
bool vh_event_from_myself(const Event<>& e) { return e.isFromMyself(); }
}
