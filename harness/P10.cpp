// P10  block string hash (lookup3 hashword over the string's little-endian words)
//vp: * prune=1 affine=1
#include "vp.h"
#include "datas/jenkinshash3.hpp"

static uint32_t rot(uint32_t x, unsigned k) { return (x << k) | (x >> (32 - k)); }
struct Abc {
  uint32_t a, b, c;
};
static void mix(uint32_t &a, uint32_t &b, uint32_t &c) {
  a -= c; a ^= rot(c, 4); c += b;
  b -= a; b ^= rot(a, 6); a += c;
  c -= b; c ^= rot(b, 8); b += a;
  a -= c; a ^= rot(c, 16); c += b;
  b -= a; b ^= rot(a, 19); a += c;
  c -= b; c ^= rot(b, 4); b += a;
}
static void final_(uint32_t &a, uint32_t &b, uint32_t &c) {
  c ^= b; c -= rot(b, 14);
  a ^= c; a -= rot(c, 11);
  b ^= a; b -= rot(a, 25);
  c ^= b; c -= rot(b, 16);
  a ^= c; a -= rot(c, 4);
  b ^= a; b -= rot(a, 14);
  c ^= b; c -= rot(b, 24);
}
struct Spec {
  const uint8_t *t;
  size_t n;
  size_t tailAt, tail;
  // word w of the tail
  uint32_t word(size_t w) const {
    uint32_t r = 0;
    for (size_t i = 0; i < 4; i++)
      if (4 * w + i < tail) r |= uint32_t(t[tailAt + 4 * w + i]) << (8 * i);
    return r;
  }
};
// every length is 12 * blocks + tail with a tail of 1..12 bytes, or 0
template <size_t tail> static void check(bool viaObject) {
  size_t blocks = vp_range("blocks", 0, uint64_t(1) << 36); // full blocks in front of the last one to three words
  vp_assume(tail || !blocks);
  size_t n = 12 * blocks + tail;
  uint8_t *t = (uint8_t *)vp_buf("text", n);
  uint32_t seed = viaObject ? 0 : vp_u32("seed");
  Spec s{t, n, 12 * blocks, tail};
  size_t left = (tail + 3) / 4;
  size_t words = 3 * blocks + left;
  uint32_t init = 0xdeadbeef + (uint32_t(words) << 2) + seed;
  auto step = [&](Abc &x, uint64_t i) {
    const uint8_t *p = t + 12 * i;
    x.a += p[0] | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24;
    x.b += p[4] | uint32_t(p[5]) << 8 | uint32_t(p[6]) << 16 | uint32_t(p[7]) << 24;
    x.c += p[8] | uint32_t(p[9]) << 8 | uint32_t(p[10]) << 16 | uint32_t(p[11]) << 24;
    mix(x.a, x.b, x.c);
  };
  Abc x = vp_foldw<uint32_t>("blocks@k", Abc{init, init, init}, blocks, step);
  if (left) {
    x.a += s.word(0);
    if (left > 1) x.b += s.word(1);
    if (left > 2) x.c += s.word(2);
    final_(x.a, x.b, x.c);
  }
  auto inv = [&](uint64_t done) { return done <= blocks; };
  vp_inv1("blocks done", inv);
  es::string_view v((char *)t, n);
  uint32_t got = viaObject ? uint32(JenHash3(v)) : JenkinsHash3_(v, seed);
  vp_assert(got == x.c, "hash of the bytes");
  vp_cover("end");
}
VP_HARNESS(tail_0) { check<0>(false); }
VP_HARNESS(tail_1) { check<1>(false); }
VP_HARNESS(tail_2) { check<2>(false); }
VP_HARNESS(tail_3) { check<3>(false); }
VP_HARNESS(tail_4) { check<4>(false); }
VP_HARNESS(tail_5) { check<5>(false); }
VP_HARNESS(tail_6) { check<6>(false); }
VP_HARNESS(tail_7) { check<7>(false); }
VP_HARNESS(tail_8) { check<8>(false); }
VP_HARNESS(tail_9) { check<9>(false); }
VP_HARNESS(tail_10) { check<10>(false); }
VP_HARNESS(tail_11) { check<11>(false); }
VP_HARNESS(tail_12) { check<12>(false); }
VP_HARNESS(object_0) { check<0>(true); }
VP_HARNESS(object_3) { check<3>(true); }
VP_HARNESS(object_9) { check<9>(true); }
VP_HARNESS(object_12) { check<12>(true); }
