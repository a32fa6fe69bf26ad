// P01  variable-length unsigned integers
#define VP_USE_STREAM
#include "vp.h"
#include "datas/base_128.hpp"

// specified encoding: 7 bits per byte, top bit set on all bytes but the last, a ninth byte carries 8 bits
static size_t spec_len(uint64_t v) {
  size_t n = 1;
  for (size_t i = 1; i < 9; i++)
    if (v >> (7 * i)) n = i + 1;
  return n;
}
static uint8_t spec_byte(uint64_t v, size_t n, size_t i) {
  if (i == 8) return uint8_t(v >> 56);
  return uint8_t((v >> (7 * i)) & 0x7f) | (i + 1 < n ? 0x80 : 0);
}

template <bool nested> static void roundtrip() {
  size_t size = vp_size("size");
  VpStream st("file", size);
  uint64_t at = vp_range("at", 0, uint64_t(1) << 40);
  vp_assume(at <= size);
  uint64_t other = vp_u64("other");
  vp_assume(other < size);
  uint8_t otherVal = st.at(other);
  st.setp(at);
  uint64_t v = vp_u64("v");
  BinWritterRef wr(st.out());
  wr.SwapEndian(vp_bool("swapw"));
  buint128 w(v);
  if (nested)
    wr.Write(w);
  else
    w.Write(wr);
  size_t n = spec_len(v);
  vp_assert(!st.failed(), "write does not fail");
  vp_assert(st.ppos() == at + n, "encoded length");
  vp_assert(uint64_t(w) == v, "writing leaves the value alone");
  uint64_t i = vp_range("i", 0, 8);
  if (i < n) vp_assert(st.at(at + i) == spec_byte(v, n, i), "encoded bytes");
  if (other < at || other >= at + n) vp_assert(st.at(other) == otherVal, "only the encoding is written");
  st.setg(at);
  BinReaderRef rd(st.in());
  rd.SwapEndian(vp_bool("swapr"));
  buint128 r(vp_u64("garbage"));
  uint64_t rv = 0;
  if (nested)
    rd.Read(r);
  else {
    rv = r.Read(rd);
    vp_assert(rv == v, "returned value");
  }
  vp_assert(uint64_t(r) == v, "value read back");
  vp_assert(st.gpos() == at + n, "reader consumes the encoding");
  vp_assert(!st.failed(), "read does not fail");
  vp_cover("end");
}
VP_HARNESS(roundtrip_direct) { roundtrip<false>(); }
VP_HARNESS(roundtrip_nested) { roundtrip<true>(); }

// reading any encoding consumes up to and including the first byte without continuation, at most nine
VP_HARNESS(decode) {
  size_t size = vp_size("size");
  vp_assume(size >= 9);
  VpStream st("file", size);
  uint64_t at = vp_range("at", 0, uint64_t(1) << 40);
  vp_assume(at <= size - 9);
  st.setg(at);
  BinReaderRef rd(st.in());
  rd.SwapEndian(vp_bool("swap"));
  uint64_t v = 0;
  size_t n = 9;
  for (size_t i = 0; i < 9; i++) {
    uint8_t b = st.at(at + i);
    v |= uint64_t(i == 8 ? b : b & 0x7f) << (7 * i);
    if (i == 8 || !(b & 0x80)) {
      n = i + 1;
      break;
    }
  }
  buint128 r(vp_u64("garbage"));
  rd.Read(r);
  vp_assert(uint64_t(r) == v, "decoded value");
  vp_assert(st.gpos() == at + n, "bytes consumed");
}
