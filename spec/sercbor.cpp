// Instantiates the real CBOR struct serializer for the VC generator (no logic of its own).
#include "dots/type/Struct.h"
#include "dots/type/StructDescriptor.h"
#include "dots/type/EnumDescriptor.h"
#include "dots/type/VectorDescriptor.h"
#include "dots/type/Property.h"
#include "dots/type/ProxyProperty.h"
#include "dots/serialization/CborSerializer.h"
#include "VhDeep.dots.h"
using namespace dots::type; using namespace dots::serialization;
#include "structs.h"
using VhDeep = dots::types::VhDeep;
extern "C" {
uint64_t vh_serialize(CborSerializer& s, const Struct& x, uint32_t in) { return s.serialize(x, PropertySet{ in }); }
uint64_t vh_deserialize(CborSerializer& s, Struct& x, uint32_t in) { return s.deserialize(x, PropertySet{ in }); }
uint64_t vh_serialize_static(CborSerializer& s, const VhDeep& x, uint32_t in) { return s.serialize(x, PropertySet{ in }); }
uint64_t vh_deserialize_static(CborSerializer& s, VhDeep& x, uint32_t in) { return s.deserialize(x, PropertySet{ in }); }
uint64_t vh_serialize_property(CborSerializer& s, const ProxyProperty<>& p) { return s.serialize(p); }
uint64_t vh_deserialize_property(CborSerializer& s, ProxyProperty<>& p) { return s.deserialize(p); }
const void* vh_enum_tag(const EnumDescriptor& d, uint32_t t) { return &d.enumeratorFromTag(t); }
const void* vh_enum_value(const EnumDescriptor& d, int32_t v) { return &d.enumeratorFromValue(v); }
uint32_t vh_pd_set(const PropertyDescriptor& p) { return p.set().toValue(); }
}
