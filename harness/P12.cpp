// P12  XOR cipher
//vp-flags: -I${REPO}/datas
#include "vp.h"
#include "datas/encrypt/xorenc.hpp"

struct Setup {
  size_t n, kn, i;
  char *buf;
  uint8_t *key;
  uint8_t before;
  XOREncoder enc;
  Setup() {
    n = vp_size("n");
    kn = vp_size("keylen");
    vp_assume(kn > 0);
    buf = (char *)vp_buf("buffer", n);
    key = (uint8_t *)vp_buf("key", kn);
    i = vp_range("i", 0, uint64_t(1) << 40);
    vp_assume(i < n);
    before = buf[i];
    enc.SetKey(es::string_view((char *)key, kn));
  }
  uint8_t want() { return before ^ key[i % kn]; }
};
VP_HARNESS(encode) {
  Setup s;
  uint8_t want = s.want();
  auto inv = [&](uint64_t d) { return uint8_t(s.buf[s.i]) == (s.i < d ? want : s.before); };
  vp_inv1("done", inv);
  s.enc.Encode(s.buf, s.n);
  vp_inv_clear();
  vp_assert(uint8_t(s.buf[s.i]) == want, "byte i is combined with key byte i mod length");
}
VP_HARNESS(decode) {
  Setup s;
  uint8_t want = s.want();
  auto inv = [&](uint64_t d) { return uint8_t(s.buf[s.i]) == (s.i < d ? want : s.before); };
  vp_inv1("done", inv);
  IEncryptor &e = s.enc;
  e.Decode(s.buf, s.n);
  vp_inv_clear();
  vp_assert(uint8_t(s.buf[s.i]) == want, "byte i is combined with key byte i mod length");
}
VP_HARNESS(involution) {
  Setup s;
  uint8_t want = s.want();
  {
    auto inv = [&](uint64_t d) { return uint8_t(s.buf[s.i]) == (s.i < d ? want : s.before); };
    vp_inv1("done", inv);
    s.enc.Encode(s.buf, s.n);
    vp_inv_clear();
  }
  {
    auto inv = [&](uint64_t d) { return uint8_t(s.buf[s.i]) == (s.i < d ? s.before : want); };
    vp_inv1("undone", inv);
    s.enc.Decode(s.buf, s.n);
    vp_inv_clear();
  }
  vp_assert(uint8_t(s.buf[s.i]) == s.before, "decoding restores the buffer");
}
VP_HARNESS(frame) {
  // a window inside of a larger block
  size_t total = vp_size("total"), at = vp_range("at", 0, total), n = vp_range("n", 0, total - at);
  size_t kn = vp_size("keylen");
  vp_assume(kn > 0);
  char *block = (char *)vp_buf("block", total);
  char *key = (char *)vp_buf("key", kn);
  size_t i = vp_range("i", 0, uint64_t(1) << 40), j = vp_range("j", 0, uint64_t(1) << 40);
  vp_assume(i < total && (i < at || i >= at + n) && j < kn);
  char before = block[i], kbefore = key[j];
  XOREncoder e;
  e.SetKey(es::string_view(key, kn));
  auto inv = [&] { return block[i] == before && key[j] == kbefore; };
  vp_inv0("outside", inv);
  e.Encode(block + at, n);
  vp_inv_clear();
  vp_assert(block[i] == before && key[j] == kbefore, "nothing outside of the buffer changes");
}
