// P33  numeric helpers
#include "vp.h"
#include "datas/supercore.hpp"

VP_HARNESS(padding) {
  uint64_t v = vp_u64("v");
  uint64_t sh = vp_range("sh", 0, 63);
  uint64_t a = uint64_t(1) << sh;
  uint64_t p = GetPadding(v, a);
  vp_assert(p < a, "padding below the alignment");
  vp_assert(((v + p) & (a - 1)) == 0, "padding reaches a multiple");
}

template <class T> static void pow2(T v) {
  bool expect = false;
  for (unsigned i = 0; i < sizeof(T) * 8 - (T(-1) < T(0) ? 1 : 0); i++)
    expect = expect | (v == T(T(1) << i));
  vp_assert(IsPow2(v) == expect, "power of two exactly");
}
VP_HARNESS(pow2_u8) { pow2<uint8_t>(vp_u8("v")); }
VP_HARNESS(pow2_u16) { pow2<uint16_t>(vp_u16("v")); }
VP_HARNESS(pow2_u32) { pow2<uint32_t>(vp_u32("v")); }
VP_HARNESS(pow2_u64) { pow2<uint64_t>(vp_u64("v")); }
VP_HARNESS(pow2_i8) { pow2<int8_t>(vp_i8("v")); }
VP_HARNESS(pow2_i16) { pow2<int16_t>(vp_i16("v")); }
VP_HARNESS(pow2_i32) { pow2<int32_t>(vp_i32("v")); }
VP_HARNESS(pow2_i64) { pow2<int64_t>(vp_i64("v")); }

VP_HARNESS(fourcc) {
  char t[5];
  uint8_t b[5];
  for (int i = 0; i < 5; i++) t[i] = char(b[i] = vp_u8("c"));
  uint32_t tag = CompileFourCC(t);
  vp_assert(tag == (b[0] | uint32_t(b[1]) << 8 | uint32_t(b[2]) << 16 | uint32_t(b[3]) << 24), "little-endian value");
  char u[4];
  for (int i = 0; i < 4; i++) u[i] = t[i];
  vp_assert(CompileFourCC(u) == tag, "independent of the terminator");
}
