// P11  block cipher
//vp-src: datas/encrypt/blowfish.cpp
//vp: * limit=2 frame=1 affine=1 one_ms=30000
//vp: encode_CBC one_ms=200000 cost=150 budget=700
//vp: block1 limit=40
//vp: block2 limit=40
//vp: setkey limit=1100
#include "vp.h"
#include "datas/encrypt/blowfish2.h"
#include <new>

// the chaining modes over an arbitrary block transform
struct Chained : BlowfishEncoder {
  void EncodeBlock(uint64 &block) const override { block = vp_bij(block); }
  void DecodeBlock(uint64 &block) const override { block = vp_bij_inv(block); }
};
static uint64_t word(const char *p, size_t i) {
  uint64_t w;
  memcpy(&w, p + 8 * i, 8);
  return w;
}
// the standard definition of each mode: what block i becomes, given the chaining value, and the next chaining value
template <int mode> struct Spec {
  static uint64_t cipher(uint64_t chain, uint64_t plain) {
    switch (mode) {
    case BlowfishEncoder::ECB:
      return vp_bij(plain);
    case BlowfishEncoder::CBC:
    case BlowfishEncoder::PCBC:
      return vp_bij(plain ^ chain);
    default:
      return plain ^ vp_bij(chain);
    }
  }
  static uint64_t next(uint64_t chain, uint64_t plain) {
    switch (mode) {
    case BlowfishEncoder::ECB:
      return chain;
    case BlowfishEncoder::CBC:
    case BlowfishEncoder::CFB:
      return cipher(chain, plain);
    case BlowfishEncoder::PCBC:
      return cipher(chain, plain) ^ plain;
    default:
      return vp_bij(chain);
    }
  }
};
template <int mode> static void encode() {
  const size_t n = vp_size("n"), nb = n / 8;
  char *buf = (char *)vp_buf("buffer", n);
  const uint64_t iv = vp_u64("vector");
  Chained c;
  c.Mode((enum BlowfishEncoder::Mode)mode);
  c.Vector(iv);
  auto step = [&](uint64_t &s, uint64_t i) { s = Spec<mode>::next(s, word(buf, i)); };
  vp_foldw<uint64_t>("chain", iv, nb, step);
  const size_t b = vp_range("b", 0, uint64_t(1) << 40), rest = vp_range("rest", 0, 7);
  vp_assume(b < nb);
  const bool tail = nb * 8 + rest < n;
  const char last = tail ? buf[nb * 8 + rest] : 0;
  const uint64_t want = Spec<mode>::cipher(vp_fold_at<uint64_t>("chain", b), word(buf, b));
  auto done = [&](uint64_t d) { return !(b < d) || word(buf, b) == want; };
  vp_inv1("blocks so far", done);
  c.Encode(buf, n);
  vp_inv_clear();
  vp_assert(word(buf, b) == want, "each block as the mode defines it");
  vp_assert(!tail || buf[nb * 8 + rest] == last, "bytes after the last whole block are untouched");
  vp_assert(c.Vector() == iv, "the vector stays");
}
template <int mode> static void decode() {
  const size_t n = vp_size("n"), nb = n / 8;
  char *buf = (char *)vp_buf("buffer", n);
  const char *plain = (const char *)vp_buf("plain", n);
  const uint64_t iv = vp_u64("vector");
  Chained c;
  c.Mode((enum BlowfishEncoder::Mode)mode);
  c.Vector(iv);
  auto step = [&](uint64_t &s, uint64_t i) { s = Spec<mode>::next(s, word(plain, i)); };
  vp_foldw<uint64_t>("chain", iv, nb, step);
  // the buffer holds what encoding made of the plain text
  auto encoded = [&](uint64_t i) {
    return i % 8 || i / 8 >= nb || word(buf, i / 8) == Spec<mode>::cipher(vp_fold_at<uint64_t>("chain", i / 8), word(plain, i / 8));
  };
  vp_assume_all(buf, n, encoded);
  const size_t b = vp_range("b", 0, uint64_t(1) << 40), rest = vp_range("rest", 0, 7);
  vp_assume(b < nb);
  const bool tail = nb * 8 + rest < n;
  const char last = tail ? buf[nb * 8 + rest] : 0;
  const uint64_t want = word(plain, b);
  auto done = [&](uint64_t d) { return !(b < d) || word(buf, b) == want; };
  vp_inv1("blocks so far", done);
  c.Decode(buf, n);
  vp_inv_clear();
  vp_assert(word(buf, b) == want, "decoding restores each block");
  vp_assert(!tail || buf[nb * 8 + rest] == last, "bytes after the last whole block are untouched");
  vp_assert(c.Vector() == iv, "the vector stays");
}
#define MODE(m)                                                                                                       \
  VP_HARNESS(encode_##m) { encode<BlowfishEncoder::m>(); }                                                            \
  VP_HARNESS(decode_##m) { decode<BlowfishEncoder::m>(); }
MODE(ECB)
MODE(CBC)
MODE(PCBC)
MODE(CFB)
MODE(OFB)

// one block of either cipher, for every content of the boxes: the object lies in memory of arbitrary content
template <class C> static void block() {
  const C *c = new (vp_buf("cipher", sizeof(C))) C;
  uint64_t w = vp_u64("block");
  const uint64_t orig = w;
  const IEncryptor &e = *c;
  e.Encode((char *)&w, 8);
  e.Decode((char *)&w, 8);
  vp_assert(w == orig, "decoding undoes encoding");
  e.Decode((char *)&w, 8);
  e.Encode((char *)&w, 8);
  vp_assert(w == orig, "encoding undoes decoding");
}
VP_HARNESS(block1) { block<BlowfishEncoder>(); }
VP_HARNESS(block2) { block<BlowfishEncoder2>(); }

// the key schedule is a function of the key, whatever the object held before and whatever the block transform is
struct Schedule : Chained {
  const uint32 *P() const { return pboxes; }
  const uint32 *S() const { return sboxes; }
};
VP_HARNESS(setkey) {
  const size_t n = vp_range("n", 1, uint64_t(1) << 40);
  const char *key = (const char *)vp_buf("key", n);
  auto *a = new (vp_buf("one", sizeof(Schedule))) Schedule;
  auto *b = new (vp_buf("other", sizeof(Schedule))) Schedule;
  a->SetKey({key, n});
  b->SetKey({key, n});
  for (int round = 0; round < 2; round++) {
    bool same = true;
    for (int i = 0; i < BF_NUMPBOXES; i++)
      same &= a->P()[i] == b->P()[i];
    for (int i = 0; i < BF_NUMSBOXES; i++)
      same &= a->S()[i] == b->S()[i];
    vp_assert(same, "same boxes");
    a->SetKey({key, n});
  }
}
