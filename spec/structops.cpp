// Instantiates the real struct value operations for the VC generator (no logic of its own).
#include "dots/type/Struct.h"
#include "dots/type/StructDescriptor.h"
#include "lib/src/type/StructDescriptor.cpp"
using namespace dots::type;
#include "structs.h"
static PropertySet S(uint32_t v) { return PropertySet{ v }; }
extern "C" {
void* vh_construct(const StructDescriptor& d, Struct& a) { return &d.construct(a); }
void* vh_construct_copy(const StructDescriptor& d, Struct& a, const Struct& b) { return &d.construct(a, b); }
void* vh_construct_move(const StructDescriptor& d, Struct& a, Struct& b) { return &d.construct(a, std::move(b)); }
void* vh_destruct(const StructDescriptor& d, Struct& a) { return &d.destruct(a); }
void* vh_assign(const StructDescriptor& d, Struct& a, const Struct& b, uint32_t in) { return &d.assign(a, b, S(in)); }
void* vh_assign_move(const StructDescriptor& d, Struct& a, Struct& b, uint32_t in) { return &d.assign(a, std::move(b), S(in)); }
void* vh_copy(const StructDescriptor& d, Struct& a, const Struct& b, uint32_t in) { return &d.copy(a, b, S(in)); }
void* vh_merge(const StructDescriptor& d, Struct& a, const Struct& b, uint32_t in) { return &d.merge(a, b, S(in)); }
void vh_swap(const StructDescriptor& d, Struct& a, Struct& b, uint32_t in) { d.swap(a, b, S(in)); }
void vh_clear(const StructDescriptor& d, Struct& a, uint32_t in) { d.clear(a, S(in)); }
bool vh_equal(const StructDescriptor& d, const Struct& a, const Struct& b, uint32_t in) { return d.equal(a, b, S(in)); }
bool vh_same(const StructDescriptor& d, const Struct& a, const Struct& b) { return d.same(a, b); }
bool vh_less(const StructDescriptor& d, const Struct& a, const Struct& b, uint32_t in) { return d.less(a, b, S(in)); }
bool vh_less_equal(const StructDescriptor& d, const Struct& a, const Struct& b, uint32_t in) { return d.lessEqual(a, b, S(in)); }
bool vh_greater(const StructDescriptor& d, const Struct& a, const Struct& b, uint32_t in) { return d.greater(a, b, S(in)); }
bool vh_greater_equal(const StructDescriptor& d, const Struct& a, const Struct& b, uint32_t in) { return d.greaterEqual(a, b, S(in)); }
uint32_t vh_diff(const StructDescriptor& d, const Struct& a, const Struct& b, uint32_t in) { return d.diffProperties(a, b, S(in)).toValue(); }
// the type-erased interface (Descriptor<Typeless>): what a property of struct type is handled with
static Typeless& T(Struct& s) { return reinterpret_cast<Typeless&>(s); } static const Typeless& T(const Struct& s) { return reinterpret_cast<const Typeless&>(s); }
void* vht_construct(const StructDescriptor& d, Struct& a) { return &d.construct(T(a)); }
void* vht_construct_copy(const StructDescriptor& d, Struct& a, const Struct& b) { return &d.construct(T(a), T(b)); }
void* vht_construct_move(const StructDescriptor& d, Struct& a, Struct& b) { return &d.construct(T(a), std::move(T(b))); }
void* vht_in_place(const StructDescriptor& d, Struct& a) { return &d.constructInPlace(T(a)); }
void* vht_in_place_copy(const StructDescriptor& d, Struct& a, const Struct& b) { return &d.constructInPlace(T(a), T(b)); }
void* vht_in_place_move(const StructDescriptor& d, Struct& a, Struct& b) { return &d.constructInPlace(T(a), std::move(T(b))); }
void* vhs_in_place(const StructDescriptor& d, Struct& a) { return &d.constructInPlace(a); }
void* vhs_in_place_copy(const StructDescriptor& d, Struct& a, const Struct& b) { return &d.constructInPlace(a, b); }
void* vhs_in_place_move(const StructDescriptor& d, Struct& a, Struct& b) { return &d.constructInPlace(a, std::move(b)); }
void vht_destruct(const StructDescriptor& d, Struct& a) { d.destruct(T(a)); }
void* vht_assign_none(const StructDescriptor& d, Struct& a) { return &d.assign(T(a)); }
void* vht_assign(const StructDescriptor& d, Struct& a, const Struct& b) { return &d.assign(T(a), T(b)); }
void* vht_assign_move(const StructDescriptor& d, Struct& a, Struct& b) { return &d.assign(T(a), std::move(T(b))); }
void vht_swap(const StructDescriptor& d, Struct& a, Struct& b) { d.swap(T(a), T(b)); }
bool vht_equal(const StructDescriptor& d, const Struct& a, const Struct& b) { return d.equal(T(a), T(b)); }
bool vht_less(const StructDescriptor& d, const Struct& a, const Struct& b) { return d.less(T(a), T(b)); }
// observers
void* vh_desc_props(const StructDescriptor& d) { return const_cast<property_descriptor_container_t*>(&d.propertyDescriptors()); }
}
// PropertyDescriptor observers
extern "C" uint32_t vh_pd_set(const PropertyDescriptor& p) { return p.set().toValue(); }
