// P06  packed small floats
//vp: * fp=fp timeout=60
#include "vp.h"
#include "datas/float.hpp"

// bits of the single-precision float with the value a finite pattern stands for (IEEE layout: M mantissa
// bits, E exponent bits, optional sign), computed with integers only
template <unsigned M, unsigned E, bool S> static uint32_t specBits(uint32_t v) {
  const uint32_t bias = (1u << (E - 1)) - 1;
  const uint32_t sign = S ? ((v >> (M + E)) & 1) << 31 : 0;
  const uint32_t e = (v >> M) & ((1u << E) - 1), m = v & ((1u << M) - 1);
  if (e) return sign | ((e + 127 - bias) << 23) | (m << (23 - M));
  uint32_t r = sign;
  for (unsigned k = 0; k < M; k++)
    if ((m >> k) == 1) r = sign | ((127 + k + 1 - bias - M) << 23) | ((m ^ (1u << k)) << (23 - k));
  return r;
}
static uint32_t bitsOf(float f) {
  uint32_t r;
  memcpy(&r, &f, 4);
  return r;
}
static float floatOf(uint32_t b) {
  float f;
  memcpy(&f, &b, 4);
  return f;
}
template <unsigned M, unsigned E, bool S> static uint32_t pattern(const char *name) {
  uint32_t v = uint32_t(vp_range(name, 0, (1u << (M + E + (S ? 1 : 0))) - 1));
  vp_assume(((v >> M) & ((1u << E) - 1)) != (1u << E) - 1);
  return v;
}
template <unsigned M, unsigned E, bool S> static void decode() {
  uint32_t v = pattern<M, E, S>("v");
  vp_assert(bitsOf(esFloat<M, E, S>::ToFloat(v)) == specBits<M, E, S>(v), "decoded value");
}
template <unsigned M, unsigned E, bool S> static void encode() {
  uint32_t v = pattern<M, E, S>("v");
  vp_assert(esFloat<M, E, S>::FromFloat(floatOf(specBits<M, E, S>(v))) == v, "re-encoded pattern");
}
template <unsigned M, unsigned E, bool S> static void decode4() {
  uint32_t v[4];
  for (int i = 0; i < 4; i++) v[i] = pattern<M, E, S>("v");
  Vector4A16 r = esFloat<M, E, S>::ToVector4(IVector4A16(v[0], v[1], v[2], v[3]));
  for (int i = 0; i < 4; i++) vp_assert(bitsOf(r[i]) == specBits<M, E, S>(v[i]), "decoded lane");
}
template <unsigned M, unsigned E, bool S> static void encode4() {
  uint32_t v[4];
  float f[4];
  for (int i = 0; i < 4; i++) {
    v[i] = pattern<M, E, S>("v");
    f[i] = floatOf(specBits<M, E, S>(v[i]));
  }
  IVector4A16 r = esFloat<M, E, S>::FromVector4(Vector4A16(f[0], f[1], f[2], f[3]));
  for (int i = 0; i < 4; i++) vp_assert(uint32_t(r[i]) == v[i], "re-encoded lane");
}
VP_HARNESS(half_decode) { decode<10, 5, true>(); }
VP_HARNESS(half_encode) { encode<10, 5, true>(); }
VP_HARNESS(half_decode4) { decode4<10, 5, true>(); }
VP_HARNESS(half_encode4) { encode4<10, 5, true>(); }
VP_HARNESS(u11_decode) { decode<6, 5, false>(); }
VP_HARNESS(u11_encode) { encode<6, 5, false>(); }
VP_HARNESS(u11_decode4) { decode4<6, 5, false>(); }
VP_HARNESS(u11_encode4) { encode4<6, 5, false>(); }
VP_HARNESS(u10_decode) { decode<5, 5, false>(); }
VP_HARNESS(u10_encode) { encode<5, 5, false>(); }
VP_HARNESS(u10_decode4) { decode4<5, 5, false>(); }
VP_HARNESS(u10_encode4) { encode4<5, 5, false>(); }
VP_HARNESS(packed_r11g11b10) {
  uint32_t d = vp_u32("data");
  uint32_t r = d & 0x7ff, g = (d >> 11) & 0x7ff, b = d >> 22;
  vp_assume((r >> 6) != 31 && (g >> 6) != 31 && (b >> 5) != 31);
  VectorR11G11B10_UFLOAT p{d};
  Vector4A16 v = p;
  vp_assert(bitsOf(v.X) == (specBits<6, 5, false>(r)), "first component");
  vp_assert(bitsOf(v.Y) == (specBits<6, 5, false>(g)), "second component");
  vp_assert(bitsOf(v.Z) == (specBits<5, 5, false>(b)), "third component");
}
