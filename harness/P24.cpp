// P24  sampling an element buffer
//vp-src: uni/uni_format.cpp
//vp: * limit=2 feas_ms=3000 fp=uf
//vp: found_R32G32B32A32 ctors=1 limit=4000
//vp: found_R32G32B32 ctors=1 limit=4000
//vp: found_R16G16B16A16 ctors=1 limit=4000
//vp: found_R32G32 ctors=1 limit=4000
//vp: found_R16G16B16 ctors=1 limit=4000
//vp: found_R32 ctors=1 limit=4000
//vp: found_R16G16 ctors=1 limit=4000
//vp: found_R10G10B10A2 ctors=1 limit=4000
//vp: found_R11G11B10 ctors=1 limit=4000
//vp: found_R8G8B8A8 ctors=1 limit=4000
//vp: found_R24G8 ctors=1 limit=4000
//vp: found_R8G8B8 ctors=1 limit=4000
//vp: found_R8G8 ctors=1 limit=4000
//vp: found_R16 ctors=1 limit=4000
//vp: found_R5G6B5 ctors=1 limit=4000
//vp: found_R5G5B5A1 ctors=1 limit=4000
//vp: found_R8 ctors=1 limit=4000
//vp: found_float ctors=1 limit=4000
//vp: sample_uint ctors=1 limit=200
//vp: sample_int ctors=1 limit=200
//vp: unlisted ctors=1 limit=4000
//vp: resized limit=100
#include "vp.h"
#include "uni/internal/format_full.hpp"
#include <unordered_map>
#include <vector>
using namespace uni;

#ifdef VP_ENGINE
// assumed contract on libstdc++'s rehash policy: some bucket count, at least the one asked for
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  _M_next_resize = n | 1;
  return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n, size_t elements, size_t more) const {
  if (elements + more > n) return {true, _M_next_bkt((elements + more) * 2)};
  return {false, 0};
}
} // namespace __detail
} // namespace std
#endif

// a vector of exactly n elements over given memory
template <class T> struct Over {
  alignas(std::vector<T>) char raw[sizeof(std::vector<T>)];
  Over(T *p, size_t n) {
    T *f[3] = {p, p + n, p + n};
    static_assert(sizeof(f) == sizeof(raw), "layout of the vector");
    memcpy(raw, f, sizeof(f));
  }
  std::vector<T> &get() { return *(std::vector<T> *)raw; }
};

// The sampler hands each multiple of the stride to the codec, once and in order.  The codec here only records
// the calls; its result carries the number of the call.
static const char *expected;
static uint64_t calls, step;
static uint64_t number(const Vector4A16 &v) {
  uint64_t n;
  memcpy(&n, &v, 8);
  return n;
}
struct Recorder {
  static Vector4A16 GetValue(const char *p) {
    vp_assert(p == expected, "the element at the next multiple of the stride");
    expected += step;
    Vector4A16 r;
    uint64_t w[2] = {calls++, 0};
    memcpy((void *)&r, w, 16);
    return r;
  }
};
namespace uni {
template <> class FormatCodec_t<FormatType::INVALID, DataType::R32G32B32A32> : public Recorder {};
template <> class FormatCodec_t<FormatType::INVALID, DataType::R16G16B16> : public Recorder {};
template <> class FormatCodec_t<FormatType::INVALID, DataType::R8> : public Recorder {};
} // namespace uni
template <DataType D> static void sampler(const size_t size, bool counted) {
  const size_t n = vp_range("count", 1, uint64_t(1) << 32);
  const size_t stride = vp_choose("natural", 0, 1) ? 0 : vp_range("stride", 1, uint64_t(1) << 32);
  Vector4A16 *mem = (Vector4A16 *)vp_buf("out", n * sizeof(Vector4A16));
  char *in = (char *)vp_buf("in", uint64_t(1) << 40);
  Over<Vector4A16> o(mem, n);
  _FormatCodecImpl_t<FormatType::INVALID, D> impl;
  const FormatCodec &codec = impl;
  expected = in, calls = 0, step = stride ? stride : size;
  const size_t j = vp_size("j");
  vp_assume(j < n);
  auto inOrder = [&] { return !(j < n) || !(j < calls) || number(mem[j]) == j; };
  vp_inv0("samples are in order", inOrder);
  auto upTo = [&](uint64_t p) { return calls == p; };
  vp_inv1("one call for each sample so far", upTo);
  bool thrown = vp_throws([&] { codec.Sample(o.get(), in, counted ? n : 0, stride); });
  vp_inv_clear();
  vp_assert(thrown == (stride && stride < size), "a stride shorter than the element is rejected");
  vp_assert(calls == (thrown ? 0 : n), "one call for each sample");
  vp_assert(o.get().size() == n && o.get().data() == mem, "as many samples as asked for");
  if (thrown) return;
  vp_assert(number(mem[j]) == j, "each sample in its place");
}
VP_HARNESS(sampler16) { sampler<DataType::R32G32B32A32>(16, false); }
VP_HARNESS(sampler6) { sampler<DataType::R16G16B16>(6, true); }
VP_HARNESS(sampler1) { sampler<DataType::R8>(1, true); }

// the vector is resized to the count asked for
VP_HARNESS(resized) {
  char in[64] = {};
  std::vector<Vector4A16> out(vp_choose("before", 0, 5));
  const size_t n = vp_choose("count", 0, 4);
  const size_t before = out.size();
  _FormatCodecImpl_t<FormatType::INVALID, DataType::R8> impl;
  expected = in, calls = 0, step = 1;
  const FormatCodec &codec = impl;
  codec.Sample(out, in, n, vp_choose("stride", 0, 1));
  vp_assert(out.size() == (n ? n : before), "size");
  vp_assert(calls == out.size(), "one call for each sample");
  for (size_t i = 0; i < out.size(); i++) vp_assert(number(out[i]) == i, "each sample in its place");
}

// the registered codecs
template <FormatType F> struct Kind {
  typedef Vector4A16 type;
};
template <> struct Kind<FormatType::INT> {
  typedef IVector4A16 type;
};
template <> struct Kind<FormatType::UINT> {
  typedef IVector4A16 type;
};
template <class T> static bool same(const T &a, const T &b) {
  uint32_t x[4], y[4];
  memcpy(x, &a, 16), memcpy(y, &b, 16);
  return x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3];
}
// of any number of samples: the decode of the element at each multiple of the stride
template <FormatType F, DataType D> static void sample(size_t size, size_t extra) {
  typedef typename Kind<F>::type T;
  const size_t stride = size + extra;
  const size_t n = vp_range("count", 1, uint64_t(1) << 28);
  T *mem = (T *)vp_buf("out", n * sizeof(T));
  char *in = (char *)vp_buf("in", (n - 1) * stride + size);
  Over<T> o(mem, n);
  const size_t j = vp_size("j");
  vp_assume(j < n);
  const FormatCodec &codec = FormatCodec::Get({F, D});
  T want;
  codec.GetValue(want, in + j * stride);
  auto done = [&](uint64_t p) { return !(j < p) || same(mem[j], want); };
  vp_inv1("samples so far", done);
  codec.Sample(o.get(), in, vp_choose("counted", 0, 1) ? n : 0, extra ? stride : 0);
  vp_inv_clear();
  vp_assert(o.get().size() == n && o.get().data() == mem, "as many samples as asked for");
  vp_assert(same(mem[j], want), "sample j is the decode of the element at j strides");
}
VP_HARNESS(sample_uint) { sample<FormatType::UINT, DataType::R5G6B5>(2, 0); }
VP_HARNESS(sample_int) { sample<FormatType::INT, DataType::R8>(1, 2); }

// the codec found for a layout and type: element size and the decode (P22, P23) of that format
template <FormatType F, DataType D> static void found(const size_t bytes) {
  typedef typename Kind<F>::type T;
  const FormatCodec &codec = FormatCodec::Get({F, D});
  _FormatCodecImpl_t<F, D> impl;
  const FormatCodec &named = impl;
  for (size_t extra = 0; extra < 2; extra++) {
    char *in = (char *)vp_buf("in", 2 * bytes + extra * 3);
    std::vector<T> out(2);
    T want[2];
    named.GetValue(want[0], in), named.GetValue(want[1], in + bytes + extra * 3);
    codec.Sample(out, in, 0, extra ? bytes + 3 : 0);
    vp_assert(out.size() == 2 && same(out[0], want[0]) && same(out[1], want[1]), "decodes as that format");
    T one;
    codec.GetValue(one, in);
    vp_assert(same(one, want[0]), "decodes as that format");
    if (bytes > 1) {
      std::vector<T> kept(2);
      vp_assert(vp_throws([&] { codec.Sample(kept, in, 0, bytes - 1); }), "a stride shorter than the element is rejected");
    }
  }
}
template <DataType D> static void ints(size_t bytes) {
  found<FormatType::INT, D>(bytes);
  found<FormatType::UINT, D>(bytes);
  found<FormatType::NORM, D>(bytes);
  found<FormatType::UNORM, D>(bytes);
}
#define LAYOUT(D, bytes)                                                                                    \
  VP_HARNESS(found_##D) { ints<DataType::D>(bytes); }
LAYOUT(R32G32B32A32, 16)
LAYOUT(R32G32B32, 12)
LAYOUT(R16G16B16A16, 8)
LAYOUT(R32G32, 8)
LAYOUT(R16G16B16, 6)
LAYOUT(R32, 4)
LAYOUT(R16G16, 4)
LAYOUT(R10G10B10A2, 4)
LAYOUT(R11G11B10, 4)
LAYOUT(R8G8B8A8, 4)
LAYOUT(R24G8, 4)
LAYOUT(R8G8B8, 3)
LAYOUT(R8G8, 2)
LAYOUT(R16, 2)
LAYOUT(R5G6B5, 2)
LAYOUT(R5G5B5A1, 2)
LAYOUT(R8, 1)
VP_HARNESS(found_float) {
  found<FormatType::FLOAT, DataType::R32G32B32A32>(16);
  found<FormatType::FLOAT, DataType::R32G32B32>(12);
  found<FormatType::FLOAT, DataType::R32G32>(8);
  found<FormatType::FLOAT, DataType::R32>(4);
  found<FormatType::FLOAT, DataType::R16G16B16A16>(8);
  found<FormatType::FLOAT, DataType::R16G16B16>(6);
  found<FormatType::FLOAT, DataType::R16G16>(4);
  found<FormatType::FLOAT, DataType::R16>(2);
  found<FormatType::FLOAT, DataType::R11G11B10>(4);
  found<FormatType::UFLOAT, DataType::R11G11B10>(4);
}
// nothing is found for any other layout and type
VP_HARNESS(unlisted) {
  FormatDescr d;
  d.outType = FormatType(vp_choose("type", 0, 8));
  d.compType = DataType(vp_choose("layout", 0, 18));
  const unsigned t = unsigned(d.outType), c = unsigned(d.compType);
  bool is = t >= 1 && t <= 4 && c >= 1 && c <= 17;
  is |= d.outType == FormatType::FLOAT && (c == 1 || c == 2 || c == 4 || c == 6 || c == 3 || c == 5 || c == 7 || c == 14 || c == 9);
  is |= d.outType == FormatType::UFLOAT && c == 9;
  vp_assert(vp_throws([&] { FormatCodec::Get(d); }) == !is, "found exactly for the listed formats");
}
