// P09  one-at-a-time hash
#include "vp.h"
#include "datas/jenkinshash.hpp"

template <class T> struct State {
  T h;
};
template <class T> static uint32_t spec(const char *t, size_t n) {
  auto step = [&](State<T> &s, uint64_t i) {
    T h = s.h + T(uint8_t(t[i]));
    h = h + T(h << 10);
    h = h ^ T(h >> 6);
    s.h = T(uint32_t(h));
  };
  T h = vp_foldw<T>("oaat", State<T>{0}, n, step).h;
  h = h + T(h << 3);
  h = h ^ T(h >> 11);
  h = h + T(h << 15);
  return uint32_t(h);
}
template <class T> static void free_function() {
  size_t n = vp_size("n");
  char *t = (char *)vp_buf("text", n);
  uint32_t want = spec<T>(t, n);
  vp_assert(JenkinsHash_<T>(es::string_view(t, n)) == want, "hash of the bytes");
}
VP_HARNESS(wide) { free_function<uint64>(); }
VP_HARNESS(canonical) { free_function<uint32>(); }

template <class T, class H> static void object() {
  size_t n = vp_size("n");
  char *t = (char *)vp_buf("text", n);
  uint32_t want = spec<T>(t, n);
  H h(es::string_view(t, n));
  vp_assert(h.raw() == want && h == want && want == h && !(h != want), "hash object holds the hash of the bytes");
}
VP_HARNESS(object_wide) { object<uint64, JenHash>(); }
VP_HARNESS(object_canonical) { object<uint32, JenHashCannon>(); }

// a literal is hashed without its terminator, whatever it contains
template <class T, class H, size_t N> static void literal() {
  char lit[N];
  for (size_t i = 0; i + 1 < N; i++) lit[i] = vp_u8("c");
  lit[N - 1] = 0;
  T h = 0;
  for (size_t i = 0; i + 1 < N; i++) {
    h = h + T(uint8_t(lit[i]));
    h = h + T(h << 10);
    h = h ^ T(h >> 6);
    h = T(uint32_t(h));
  }
  h = h + T(h << 3);
  h = h ^ T(h >> 11);
  h = h + T(h << 15);
  const char (&ref)[N] = lit;
  vp_assert(H(ref).raw() == uint32_t(h), "hash of a literal");
}
VP_HARNESS(literals) {
  literal<uint64, JenHash, 1>();
  literal<uint64, JenHash, 2>();
  literal<uint64, JenHash, 7>();
  literal<uint32, JenHashCannon, 1>();
  literal<uint32, JenHashCannon, 6>();
}
VP_HARNESS(compare) {
  uint32_t a = vp_u32("a"), b = vp_u32("b");
  JenHash x(a), y(b);
  vp_assert((x == y) == (a == b) && (x != y) == (a != b), "equality");
  vp_assert((x == b) == (a == b) && (a != y) == (a != b), "equality with a value");
  vp_assert(JenHash().raw() == 0, "default");
}
