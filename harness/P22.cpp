// P22  integer element formats
//vp-src: uni/uni_format.cpp
#include "vp.h"
#include "uni/internal/format_full.hpp"
using namespace uni;

// one element of exactly its size; the channels take their bits from the lowest on, in order
template <FormatType F, DataType D> static void decode(const unsigned (&bits)[4], bool isSigned) {
  unsigned total = 0;
  for (unsigned b : bits) total += b;
  const size_t size = total / 8;
  char *in = (char *)vp_buf("element", size);
  uint8_t before[16];
  for (size_t i = 0; i < size; i++) before[i] = in[i];
  _FormatCodecImpl_t<F, D> impl;
  const FormatCodec &codec = impl;
  IVector4A16 out;
  codec.GetValue(out, in);
  unsigned at = 0;
  for (int c = 0; c < 4; c++) {
    uint32_t v = 0;
    for (unsigned b = 0; b < bits[c]; b++) v |= uint32_t((before[(at + b) / 8] >> ((at + b) % 8)) & 1) << b;
    if (isSigned && bits[c] && bits[c] < 32 && (v >> (bits[c] - 1))) v |= ~uint32_t(0) << bits[c];
    at += bits[c];
    vp_assert(uint32_t(out[c]) == v, "channel");
  }
  for (size_t i = 0; i < size; i++) vp_assert(uint8_t(in[i]) == before[i], "the element is unchanged");
}
#define BOTH(layout, ...)                                                                                             \
  VP_HARNESS(uint_##layout) { decode<FormatType::UINT, DataType::layout>({__VA_ARGS__}, false); }                     \
  VP_HARNESS(int_##layout) { decode<FormatType::INT, DataType::layout>({__VA_ARGS__}, true); }
BOTH(R32G32B32A32, 32, 32, 32, 32)
BOTH(R32G32B32, 32, 32, 32, 0)
BOTH(R16G16B16A16, 16, 16, 16, 16)
BOTH(R32G32, 32, 32, 0, 0)
BOTH(R16G16B16, 16, 16, 16, 0)
BOTH(R32, 32, 0, 0, 0)
BOTH(R16G16, 16, 16, 0, 0)
BOTH(R10G10B10A2, 10, 10, 10, 2)
BOTH(R11G11B10, 11, 11, 10, 0)
BOTH(R8G8B8A8, 8, 8, 8, 8)
BOTH(R24G8, 24, 8, 0, 0)
BOTH(R8G8B8, 8, 8, 8, 0)
BOTH(R8G8, 8, 8, 0, 0)
BOTH(R16, 16, 0, 0, 0)
BOTH(R5G6B5, 5, 6, 5, 0)
BOTH(R5G5B5A1, 5, 5, 5, 1)
BOTH(R8, 8, 0, 0, 0)
// the float entry points of an integer codec are rejected
VP_HARNESS(wrong_call) {
  _FormatCodecImpl_t<FormatType::UINT, DataType::R8> a;
  _FormatCodecImpl_t<FormatType::INT, DataType::R8> b;
  const FormatCodec *c[2] = {&a, &b};
  for (int i = 0; i < 2; i++) {
    Vector4A16 out(1.f, 2.f, 3.f, 4.f);
    char in[16] = {};
    vp_assert(vp_throws([&] { c[i]->GetValue(out, in); }), "rejected");
    vp_assert(out.X == 1.f && out.W == 4.f, "nothing is written");
  }
}
