// Instantiates the real description -> dynamic type conversion for the VC generator (no logic of its own).
#include "lib/src/io/DescriptorConverter.cpp"
using namespace dots;
extern "C" void* vh_convert_struct(const io::DescriptorConverter& c, const StructDescriptorData& d) { return &c(d); }
