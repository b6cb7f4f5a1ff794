// Instantiates the real CBOR reader/writer for the VC generator (no logic of its own).
#include "dots/serialization/formats/CborWriter.h"
#include "dots/serialization/formats/CborReader.h"
#include "lib/src/serialization/formats/CborReader.cpp"
using namespace dots::serialization;
#define RW(N, T) \
  extern "C" void vh_write_##N(CborWriter& w, T x) { w.write(x); } \
  extern "C" void vh_read_##N(CborReader& r, T& x) { r.read(x); }
RW(u8, uint8_t) RW(u16, uint16_t) RW(u32, uint32_t) RW(u64, uint64_t)
RW(i8, int8_t) RW(i16, int16_t) RW(i32, int32_t) RW(i64, int64_t)
RW(bool, bool) RW(f32, float) RW(f64, double)
extern "C" void vh_write_str(CborWriter& w, const char* p, size_t n) { w.write(std::string_view{ p, n }); }
extern "C" void vh_read_str(CborReader& r, std::string& s) { r.read(s); }
extern "C" void vh_write_bytes16(CborWriter& w, const std::array<uint8_t, 16>& a) { w.write(a); }
extern "C" void vh_read_bytes16(CborReader& r, std::array<uint8_t, 16>& a) { r.read(a); }
extern "C" void vh_write_arraysize(CborWriter& w, size_t n) { w.writeArraySize(n); }
extern "C" void vh_write_mapsize(CborWriter& w, size_t n) { w.writeMapSize(n); }
extern "C" void vh_write_arraybegin(CborWriter& w) { w.writeArrayBegin(); }
extern "C" void vh_write_arrayend(CborWriter& w) { w.writeArrayEnd(); }
extern "C" void vh_write_mapbegin(CborWriter& w) { w.writeMapBegin(); }
extern "C" void vh_write_mapend(CborWriter& w) { w.writeMapEnd(); }
extern "C" size_t vh_read_arraysize(CborReader& r) { return r.readArraySize(); }
extern "C" size_t vh_read_mapsize(CborReader& r) { return r.readMapSize(); }
extern "C" void vh_read_arraybegin(CborReader& r) { r.readArrayBegin(); }
extern "C" void vh_read_arrayend(CborReader& r) { r.readArrayEnd(); }
extern "C" void vh_read_mapbegin(CborReader& r) { r.readMapBegin(); }
extern "C" void vh_read_mapend(CborReader& r) { r.readMapEnd(); }
extern "C" void vh_skip(CborReader& r) { r.skip(); }
// observers (public API)
extern "C" void* vh_output(CborWriter& w) { return &w.output(); }
extern "C" const uint8_t** vh_cur(CborReader& r) { return &r.inputData(); }
extern "C" void vh_setinput(CborReader& r, const uint8_t* p, size_t n) { r.setInput(p, n); }
