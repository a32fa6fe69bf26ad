// P04  byte swapping
//vp: large_arrays conc=100
//vp: large_views conc=100
#include "vp.h"
#include "datas/endian.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/matrix44.hpp"

// buffer with guard bytes around the object; element size es, count n
template <class T, unsigned es, class F> static void swapCheck(F &&doSwap) {
  const unsigned size = sizeof(T), n = size / es;
  struct Box {
    uint8_t pre[16];
    alignas(16) uint8_t obj[sizeof(T)];
    uint8_t post[16];
  };
  alignas(16) Box b;
  void *src = vp_buf("bytes", sizeof(Box));
  memcpy(&b, src, sizeof(Box));
  alignas(16) Box before = b;
  T &t = reinterpret_cast<T &>(b.obj);
  doSwap(t);
  for (unsigned e = 0; e < n; e++)
    for (unsigned i = 0; i < es; i++)
      vp_assert(b.obj[e * es + i] == before.obj[e * es + es - 1 - i], "bytes of each element reversed in place");
  vp_assert(memcmp(b.pre, before.pre, 16) == 0 && memcmp(b.post, before.post, 16) == 0, "nothing outside the object changes");
  doSwap(t);
  vp_assert(memcmp(b.obj, before.obj, sizeof(T)) == 0, "twice is the identity");
}
template <class T> static void scalar() {
  swapCheck<T, sizeof(T)>([](T &t) { FByteswapper(t); });
}
template <class T, size_t n> static void array() {
  typedef T A[n];
  swapCheck<A, sizeof(T)>([](A &t) { FByteswapper(t); });
}
template <class T, size_t n> static void arrayOver() {
  struct S {
    T v[n];
  };
  swapCheck<S, sizeof(T)>([](S &t) { FArraySwapper<T>(t); });
}
template <class V> static void vec() {
  swapCheck<V, sizeof(typename V::value_type)>([](V &t) { FByteswapper(t); });
}
enum E16 : uint16 {};
enum class E32 : uint32 {};
enum class ES64 : int64 {};

VP_HARNESS(integers) {
  scalar<uint16>();
  scalar<int16>();
  scalar<uint32>();
  scalar<int32>();
  scalar<uint64>();
  scalar<int64>();
  scalar<unsigned long>();
  scalar<char16_t>();
}
VP_HARNESS(floats) {
  scalar<float>();
  scalar<double>();
}
VP_HARNESS(enums) {
  scalar<E16>();
  scalar<E32>();
  scalar<ES64>();
}
VP_HARNESS(arrays) {
  array<uint16, 1>();
  array<uint16, 7>();
  array<int32, 3>();
  array<float, 4>();
  array<uint64, 2>();
  array<double, 5>();
  array<E32, 3>();
}
VP_HARNESS(array_views) {
  arrayOver<uint16, 5>();
  arrayOver<int32, 3>();
  arrayOver<float, 16>();
  arrayOver<uint64, 2>();
  arrayOver<double, 3>();
}
// larger ones, checked at one arbitrary element
template <class T, size_t N, class F> static void large(F swap) {
  struct A {
    T v[N];
  };
  typedef typename es::TypeFromSize<sizeof(T)>::type U;
  size_t n = sizeof(A), k = vp_range("k", 0, N - 1);
  A *a = (A *)vp_buf("a", n);
  U *e = (U *)a + k, before = *e, want = 0;
  for (unsigned i = 0; i < sizeof(T); i++) want = U(want | U(U(before >> (8 * i)) & 0xff) << (8 * (sizeof(T) - 1 - i)));
  auto inv = [&](uint64_t done) { return *e == (k < done ? want : before); };
  vp_inv1("swapped", inv);
  swap(*a);
  vp_inv_clear();
  vp_assert(*e == want, "element of a large array");
}
VP_HARNESS(large_arrays) {
  large<uint16, 300>([](auto &a) { FByteswapper(a.v); });
  large<uint64, 260>([](auto &a) { FByteswapper(a.v); });
}
VP_HARNESS(large_views) {
  large<uint32, 300>([](auto &a) { FArraySwapper<uint32>(a); });
  large<float, 130>([](auto &a) { FArraySwapper<float>(a); });
}
VP_HARNESS(vectors) {
  vec<Vector2>();
  vec<SVector2>();
  vec<UIVector2>();
  vec<t_Vector2<double>>();
  vec<Vector>();
  vec<USVector>();
  vec<IVector>();
  vec<Vector4>();
  vec<SVector4>();
  vec<UIVector4>();
}
VP_HARNESS(simd_vectors) {
  vec<Vector4A16>();
  vec<IVector4A16>();
  vec<UIVector4A16>();
}
template <class V> static void byteVec() {
  V v = vp_any<V>("v"), w = v;
  FByteswapper(v);
  vp_assert(memcmp(&v, &w, sizeof(V)) == 0, "vectors of bytes stay");
}
VP_HARNESS(byte_vectors) {
  byteVec<CVector2>();
  byteVec<UCVector>();
  byteVec<UCVector4>();
}
VP_HARNESS(vector_arrays) {
  typedef Vector VA[3];
  swapCheck<VA, 4>([](VA &t) { FByteswapper(t); });
  typedef SVector4 SA[2];
  swapCheck<SA, 2>([](SA &t) { FByteswapper(t); });
  swapCheck<esMatrix44, 4>([](esMatrix44 &t) { FByteswapper(t); });
}

// own swap operations
struct Own {
  uint32 calls;
  uint32 data;
  void SwapEndian() { calls++; }
};
struct OwnWay {
  uint32 in, out, data;
  void SwapEndian(bool way) { way ? out++ : in++; }
};
VP_HARNESS(own) {
  Own o{0, vp_u32("d")}, o0 = o;
  FByteswapper(o);
  vp_assert(o.calls == 1 && o.data == o0.data, "own operation called exactly once");
  Own a[3] = {{0, 1}, {0, 2}, {0, 3}};
  FByteswapper(a);
  for (unsigned i = 0; i < 3; i++) vp_assert(a[i].calls == 1 && a[i].data == i + 1, "once per element");
  struct View {
    Own v[4];
  } w{{{0, 1}, {0, 2}, {0, 3}, {0, 4}}};
  FArraySwapper<Own>(w);
  for (unsigned i = 0; i < 4; i++) vp_assert(w.v[i].calls == 1 && w.v[i].data == i + 1, "once per element of a view");
  bool way = vp_bool("way");
  OwnWay d{0, 0, vp_u32("e")};
  uint32 e0 = d.data;
  FByteswapper(d, way);
  vp_assert(d.in == (way ? 0u : 1u) && d.out == (way ? 1u : 0u) && d.data == e0, "direction handed through");
  OwnWay da[2] = {{0, 0, 1}, {0, 0, 2}};
  FByteswapper(da, way);
  for (unsigned i = 0; i < 2; i++)
    vp_assert(da[i].in == (way ? 0u : 1u) && da[i].out == (way ? 1u : 0u) && da[i].data == i + 1, "direction handed to each element");
}
