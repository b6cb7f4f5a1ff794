// Arbitrary implementations of the virtual descriptor interfaces, for the specification modules.
#pragma once
#include "dots/type/Struct.h"
#include "dots/type/StructDescriptor.h"
using namespace dots::type;
// arbitrary implementations of the virtual interfaces: declared only, their behaviour is the interface contract
struct VhValue : Descriptor<Typeless>
{
    using Descriptor<Typeless>::Descriptor; VhValue(); virtual void key(); ~VhValue() override;
    bool isFundamentalType() const override;
    Typeless& construct(Typeless&) const override; Typeless& construct(Typeless&, const Typeless&) const override; Typeless& construct(Typeless&, Typeless&&) const override;
    Typeless& constructInPlace(Typeless&) const override; Typeless& constructInPlace(Typeless&, const Typeless&) const override; Typeless& constructInPlace(Typeless&, Typeless&&) const override;
    void destruct(Typeless&) const override; Typeless& assign(Typeless&) const override; Typeless& assign(Typeless&, const Typeless&) const override; Typeless& assign(Typeless&, Typeless&&) const override;
    void swap(Typeless&, Typeless&) const override; bool equal(const Typeless&, const Typeless&) const override; bool less(const Typeless&, const Typeless&) const override;
    bool usesDynamicMemory() const override; size_t dynamicMemoryUsage(const Typeless&) const override;
};
void VhValue::key() {}
struct VhStruct : StructDescriptor
{
    using StructDescriptor::StructDescriptor; virtual void key(); ~VhStruct() override;
    const PropertyArea& propertyArea(const Struct&) const override; PropertyArea& propertyArea(Struct&) const override;
};
void VhStruct::key() {}
extern "C" void vh_keep(VhValue& v, VhStruct& s) { v.VhValue::key(); s.VhStruct::key(); }
