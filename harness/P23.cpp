// P23  normalised and float element formats
//vp-src: uni/uni_format.cpp
//vp: unorm_R32G32B32A32 fp=real
//vp: norm_R32G32B32A32 fp=real
//vp: unorm_R32G32B32 fp=real
//vp: norm_R32G32B32 fp=real
//vp: unorm_R16G16B16A16 fp=real
//vp: norm_R16G16B16A16 fp=real
//vp: unorm_R32G32 fp=real
//vp: norm_R32G32 fp=real
//vp: unorm_R16G16B16 fp=real
//vp: norm_R16G16B16 fp=real
//vp: unorm_R32 fp=real
//vp: norm_R32 fp=real
//vp: unorm_R16G16 fp=real
//vp: norm_R16G16 fp=real
//vp: unorm_R10G10B10A2 fp=real
//vp: norm_R10G10B10A2 fp=real
//vp: unorm_R11G11B10 fp=real
//vp: norm_R11G11B10 fp=real
//vp: unorm_R8G8B8A8 fp=real
//vp: norm_R8G8B8A8 fp=real
//vp: unorm_R24G8 fp=real
//vp: norm_R24G8 fp=real
//vp: unorm_R8G8B8 fp=real
//vp: norm_R8G8B8 fp=real
//vp: unorm_R8G8 fp=real
//vp: norm_R8G8 fp=real
//vp: unorm_R16 fp=real
//vp: norm_R16 fp=real
//vp: unorm_R5G6B5 fp=real
//vp: norm_R5G6B5 fp=real
//vp: unorm_R5G5B5A1 fp=real
//vp: norm_R5G5B5A1 fp=real
//vp: unorm_R8 fp=real
//vp: norm_R8 fp=real
//vp: * fp=fp timeout=60
#include "vp.h"
#include "uni/internal/format_full.hpp"
using namespace uni;

static uint32_t channel(const uint8_t *el, unsigned at, unsigned n) {
  uint32_t v = 0;
  for (unsigned b = 0; b < n; b++) v |= uint32_t((el[(at + b) / 8] >> ((at + b) % 8)) & 1) << b;
  return v;
}
// The decoded channel times the range's maximum is the channel's number.  Exact over the reals up to the rounding of the
// factor (relative 2^-20); coarse: up to half a step, signed up to one (the shorter channels
// of formats decoded at the precision of their longest); of 32 bit unsigned channels 31 bits are used
template <FormatType F, DataType D> static void norm(const unsigned (&bits)[4], const bool (&coarse)[4]) {
  const bool isSigned = F == FormatType::NORM;
  unsigned total = 0;
  for (unsigned b : bits) total += b;
  const size_t size = total / 8;
  char *in = (char *)vp_buf("element", size);
  uint8_t before[16];
  for (size_t i = 0; i < size; i++) before[i] = in[i];
  _FormatCodecImpl_t<F, D> impl;
  const FormatCodec &codec = impl;
  Vector4A16 out;
  codec.GetValue(out, in);
  unsigned at = 0;
  for (int c = 0; c < 4; c++) {
    const unsigned n = bits[c];
    const uint32_t v = channel(before, at, n);
    at += n;
    if (!n) {
      vp_assert(out[c] == 0, "absent channel");
      continue;
    }
    // a signed channel of one bit is 0 or -1
    const uint32_t max = isSigned ? n == 1 ? 1 : (uint32_t(1) << (n - 1)) - 1 : ~uint32_t(0) >> (32 - n);
    const double value = isSigned ? double(int32_t(v << (32 - n)) >> (32 - n)) : double(v);
    const double m = max;
    const double error = double(out[c]) * m - value;
    const double bound = (coarse[c] ? isSigned ? 1.0 : 0.5 : 0.0) + (n == 32 ? 1.0 : 0.0) + m / 1048576;
    vp_assert(error <= bound && -error <= bound, "channel");
  }
  for (size_t i = 0; i < size; i++) vp_assert(uint8_t(in[i]) == before[i], "the element is unchanged");
}
VP_HARNESS(unorm_R32G32B32A32) { norm<FormatType::UNORM, DataType::R32G32B32A32>({32, 32, 32, 32}, {false, false, false, false}); }
VP_HARNESS(norm_R32G32B32A32) { norm<FormatType::NORM, DataType::R32G32B32A32>({32, 32, 32, 32}, {false, false, false, false}); }
VP_HARNESS(unorm_R32G32B32) { norm<FormatType::UNORM, DataType::R32G32B32>({32, 32, 32, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R32G32B32) { norm<FormatType::NORM, DataType::R32G32B32>({32, 32, 32, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R16G16B16A16) { norm<FormatType::UNORM, DataType::R16G16B16A16>({16, 16, 16, 16}, {false, false, false, false}); }
VP_HARNESS(norm_R16G16B16A16) { norm<FormatType::NORM, DataType::R16G16B16A16>({16, 16, 16, 16}, {false, false, false, false}); }
VP_HARNESS(unorm_R32G32) { norm<FormatType::UNORM, DataType::R32G32>({32, 32, 0, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R32G32) { norm<FormatType::NORM, DataType::R32G32>({32, 32, 0, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R16G16B16) { norm<FormatType::UNORM, DataType::R16G16B16>({16, 16, 16, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R16G16B16) { norm<FormatType::NORM, DataType::R16G16B16>({16, 16, 16, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R32) { norm<FormatType::UNORM, DataType::R32>({32, 0, 0, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R32) { norm<FormatType::NORM, DataType::R32>({32, 0, 0, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R16G16) { norm<FormatType::UNORM, DataType::R16G16>({16, 16, 0, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R16G16) { norm<FormatType::NORM, DataType::R16G16>({16, 16, 0, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R10G10B10A2) { norm<FormatType::UNORM, DataType::R10G10B10A2>({10, 10, 10, 2}, {false, false, false, false}); }
VP_HARNESS(norm_R10G10B10A2) { norm<FormatType::NORM, DataType::R10G10B10A2>({10, 10, 10, 2}, {false, false, false, false}); }
VP_HARNESS(unorm_R11G11B10) { norm<FormatType::UNORM, DataType::R11G11B10>({11, 11, 10, 0}, {false, false, true, false}); }
VP_HARNESS(norm_R11G11B10) { norm<FormatType::NORM, DataType::R11G11B10>({11, 11, 10, 0}, {false, false, true, false}); }
VP_HARNESS(unorm_R8G8B8A8) { norm<FormatType::UNORM, DataType::R8G8B8A8>({8, 8, 8, 8}, {false, false, false, false}); }
VP_HARNESS(norm_R8G8B8A8) { norm<FormatType::NORM, DataType::R8G8B8A8>({8, 8, 8, 8}, {false, false, false, false}); }
VP_HARNESS(unorm_R24G8) { norm<FormatType::UNORM, DataType::R24G8>({24, 8, 0, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R24G8) { norm<FormatType::NORM, DataType::R24G8>({24, 8, 0, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R8G8B8) { norm<FormatType::UNORM, DataType::R8G8B8>({8, 8, 8, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R8G8B8) { norm<FormatType::NORM, DataType::R8G8B8>({8, 8, 8, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R8G8) { norm<FormatType::UNORM, DataType::R8G8>({8, 8, 0, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R8G8) { norm<FormatType::NORM, DataType::R8G8>({8, 8, 0, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R16) { norm<FormatType::UNORM, DataType::R16>({16, 0, 0, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R16) { norm<FormatType::NORM, DataType::R16>({16, 0, 0, 0}, {false, false, false, false}); }
VP_HARNESS(unorm_R5G6B5) { norm<FormatType::UNORM, DataType::R5G6B5>({5, 6, 5, 0}, {true, false, true, false}); }
VP_HARNESS(norm_R5G6B5) { norm<FormatType::NORM, DataType::R5G6B5>({5, 6, 5, 0}, {true, false, true, false}); }
VP_HARNESS(unorm_R5G5B5A1) { norm<FormatType::UNORM, DataType::R5G5B5A1>({5, 5, 5, 1}, {false, false, false, false}); }
VP_HARNESS(norm_R5G5B5A1) { norm<FormatType::NORM, DataType::R5G5B5A1>({5, 5, 5, 1}, {false, false, false, false}); }
VP_HARNESS(unorm_R8) { norm<FormatType::UNORM, DataType::R8>({8, 0, 0, 0}, {false, false, false, false}); }
VP_HARNESS(norm_R8) { norm<FormatType::NORM, DataType::R8>({8, 0, 0, 0}, {false, false, false, false}); }

static uint32_t bitsOf(float f) {
  uint32_t r;
  memcpy(&r, &f, 4);
  return r;
}
// bits of the single-precision float with the value a finite pattern stands for (IEEE layout: M mantissa
// bits, E exponent bits, optional sign), computed with integers only
static uint32_t specBits(uint32_t v, unsigned M, unsigned E, bool S) {
  const uint32_t bias = (1u << (E - 1)) - 1;
  const uint32_t sign = S ? ((v >> (M + E)) & 1) << 31 : 0;
  const uint32_t e = (v >> M) & ((1u << E) - 1), m = v & ((1u << M) - 1);
  if (e == (1u << E) - 1) return m ? 0x7f800001 : sign | 0x7f800000;
  if (e) return sign | ((e + 127 - bias) << 23) | (m << (23 - M));
  uint32_t r = sign;
  for (unsigned k = 0; k < M; k++)
    if ((m >> k) == 1) r = sign | ((127 + k + 1 - bias - M) << 23) | ((m ^ (1u << k)) << (23 - k));
  return r;
}
template <FormatType F, DataType D> static void floats(const unsigned (&bits)[4], unsigned E, bool S) {
  unsigned total = 0;
  for (unsigned b : bits) total += b;
  const size_t size = total / 8;
  char *in = (char *)vp_buf("element", size);
  uint8_t before[16];
  for (size_t i = 0; i < size; i++) before[i] = in[i];
  _FormatCodecImpl_t<F, D> impl;
  const FormatCodec &codec = impl;
  Vector4A16 out;
  codec.GetValue(out, in);
  unsigned at = 0;
  for (int c = 0; c < 4; c++) {
    const unsigned n = bits[c];
    const uint32_t v = channel(before, at, n);
    at += n;
    if (!n) {
      vp_assert(bitsOf(out[c]) == 0, "absent channel");
      continue;
    }
    if (n == 32) {
      vp_assert(bitsOf(out[c]) == v, "channel");
      continue;
    }
    const uint32_t want = specBits(v, n - E - S, E, S), got = bitsOf(out[c]);
    if (want != 0x7f800001) // patterns that are not a number are left open
      vp_assert(got == want, "channel");
  }
  for (size_t i = 0; i < size; i++) vp_assert(uint8_t(in[i]) == before[i], "the element is unchanged");
}
VP_HARNESS(float_R32G32B32A32) { floats<FormatType::FLOAT, DataType::R32G32B32A32>({32, 32, 32, 32}, 8, true); }
VP_HARNESS(float_R32G32B32) { floats<FormatType::FLOAT, DataType::R32G32B32>({32, 32, 32, 0}, 8, true); }
VP_HARNESS(float_R32G32) { floats<FormatType::FLOAT, DataType::R32G32>({32, 32, 0, 0}, 8, true); }
VP_HARNESS(float_R32) { floats<FormatType::FLOAT, DataType::R32>({32, 0, 0, 0}, 8, true); }
VP_HARNESS(float_R16G16B16A16) { floats<FormatType::FLOAT, DataType::R16G16B16A16>({16, 16, 16, 16}, 5, true); }
VP_HARNESS(float_R16G16B16) { floats<FormatType::FLOAT, DataType::R16G16B16>({16, 16, 16, 0}, 5, true); }
VP_HARNESS(float_R16G16) { floats<FormatType::FLOAT, DataType::R16G16>({16, 16, 0, 0}, 5, true); }
VP_HARNESS(float_R16) { floats<FormatType::FLOAT, DataType::R16>({16, 0, 0, 0}, 5, true); }
VP_HARNESS(float_R11G11B10) { floats<FormatType::FLOAT, DataType::R11G11B10>({11, 11, 10, 0}, 5, true); }
VP_HARNESS(ufloat_R11G11B10) { floats<FormatType::UFLOAT, DataType::R11G11B10>({11, 11, 10, 0}, 5, false); }
