// P02  variable-length signed integers
#define VP_USE_STREAM
#include "vp.h"
#include "datas/base_128.hpp"

template <bool nested> static void roundtrip() {
  size_t size = vp_size("size");
  VpStream st("file", size);
  uint64_t at = vp_range("at", 0, uint64_t(1) << 40);
  vp_assume(at <= size);
  uint64_t other = vp_u64("other");
  vp_assume(other < size);
  uint8_t otherVal = st.at(other);
  st.setp(at);
  int64_t v = vp_i64("v");
  BinWritterRef wr(st.out());
  wr.SwapEndian(vp_bool("swapw"));
  bint128 w(v);
  if (nested)
    wr.Write(w);
  else
    w.Write(wr);
  uint64_t n = st.ppos() - at;
  vp_assert(!st.failed(), "write does not fail");
  vp_assert(n >= 1 && n <= 9, "encoded length between one and nine bytes");
  vp_assert(int64_t(w) == v, "writing leaves the value alone");
  if (other < at || other >= at + n) vp_assert(st.at(other) == otherVal, "only the encoding is written");
  st.setg(at);
  BinReaderRef rd(st.in());
  rd.SwapEndian(vp_bool("swapr"));
  bint128 r(vp_i64("garbage"));
  if (nested)
    rd.Read(r);
  else
    vp_assert(r.Read(rd) == v, "returned value");
  vp_assert(int64_t(r) == v, "value read back");
  vp_assert(st.gpos() == at + n, "reader consumes exactly the encoding");
  vp_assert(!st.failed(), "read does not fail");
  // 7 bits per byte, low bits first; values that do not need a ninth byte keep the sign in bit 6 of the last byte
  bool sign = v < 0 && v >= -(int64_t(1) << 55);
  uint64_t u = sign ? ~uint64_t(v) : uint64_t(v);
  uint64_t i = vp_choose("i", 0, 8);
  if (i + 1 < n) vp_assert(st.at(at + i) == (((u >> (7 * i)) & 0x7f) | 0x80), "payload and continuation bit");
  vp_cover("end");
}
VP_HARNESS(roundtrip_direct) { roundtrip<false>(); }
VP_HARNESS(roundtrip_nested) { roundtrip<true>(); }
