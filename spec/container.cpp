// Instantiates the real container operations for the VC generator (no logic of its own).
#include <map>
#include <unordered_map>
#include <functional>
#include <string>
#include <vector>
#include <optional>
#include <memory>
#include <stdexcept>
#include "dots/type/AnyStruct.h"
#include <DotsHeader.dots.h>
#include <DotsCloneInformation.dots.h>
#define private public
#include "dots/Container.h"
#include "dots/ContainerPool.h"
#undef private
#include "lib/src/Container.cpp"
#include "lib/src/ContainerPool.cpp"
#include "structs.h"
using namespace dots; using namespace dots::type; using C = Container<>;
extern "C" {
void vh_update(C& c, Struct& a, const Struct& b, uint32_t in) { c.updateWithoutKeys(a, b, property_set_t{ in }); }
bool vh_key_less(const C::key_compare& k, const Struct& a, const Struct& b) { return k(a, b); }
bool vh_key_less_as(const C::key_compare& k, const AnyStruct& a, const Struct& b) { return k(a, b); }
bool vh_key_less_sa(const C::key_compare& k, const Struct& a, const AnyStruct& b) { return k(a, b); }
bool vh_key_less_aa(const C::key_compare& k, const AnyStruct& a, const AnyStruct& b) { return k(a, b); }
void vh_key_compare(C::key_compare* k, const StructDescriptor& d) { new (k) C::key_compare(d); }
void vh_container(C* c, const StructDescriptor& d) { new (c) C(d); }
const void* vh_insert(C& c, const DotsHeader& h, const Struct& s) { return &c.insert(h, s); }
void vh_remove(C::node_t* n, C& c, const DotsHeader& h, const Struct& s) { new (n) C::node_t(c.remove(h, s)); }
const void* vh_find_clone(const C& c, const Struct& s) { return c.findClone(s); }
const void* vh_get_clone(const C& c, const Struct& s) { return &c.getClone(s); }
const void* vh_find(const C& c, const Struct& s) { return c.find(s); }
const void* vh_get(const C& c, const Struct& s) { return &c.get(s); }
const void* vh_pool_find(const ContainerPool& p, const StructDescriptor& d) { return p.find(d); }
const void* vh_pool_get(const ContainerPool& p, const StructDescriptor& d, bool ins) { return &p.get(d, ins); }
const void* vh_pool_find_name(const ContainerPool& p, const std::string_view& n) { return p.find(n); }
const void* vh_pool_get_name(const ContainerPool& p, const std::string_view& n) { return &p.get(n); }
void vh_pool_remove(ContainerPool::node_t* n, ContainerPool& p, const StructDescriptor& d) { new (n) ContainerPool::node_t(p.remove(d)); }
}
