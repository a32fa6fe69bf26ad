// P05  flag sets
#include "vp.h"
#include "datas/flags.hpp"

template <class F, class E, class T_> static void ops() {
  typedef typename F::ValueType T;
  static_assert(sizeof(T) == sizeof(T_) && T(-1) > 0, "storage");
  const unsigned bits = sizeof(T) * 8;
  uint64_t p = vp_range("p", 0, bits - 1), q = vp_range("q", 0, bits - 1);
  const T bp = T(T(1) << p), bq = T(T(1) << q);
  T s = vp_any<T>("s"), s2 = vp_any<T>("s2");
  F f;
  vp_assert(T(f) == 0, "a new set is empty");
  f = s;
  vp_assert(T(f) == s, "raw mask round trip");
  vp_assert(f[E(p)] == ((s >> p) & 1), "test");
  vp_assert((f == E(p)) == ((s >> p) & 1), "test by comparison");
  vp_assert((f != E(p)) == !((s >> p) & 1), "test by negated comparison");
  vp_assert(T(f) == s, "testing leaves the set alone");
  F a = f;
  a += E(p);
  vp_assert(T(a) == T(s | bp), "add");
  F b = f;
  b -= E(p);
  vp_assert(T(b) == T(s & T(~bp)), "remove");
  F c = f;
  bool st = vp_bool("state");
  c.Set(E(p), st);
  vp_assert(T(c) == (st ? T(s | bp) : T(s & T(~bp))), "set to a state");
  F d = f;
  F &dr = ((d += E(p)) -= E(q));
  vp_assert(&dr == &d, "chained operations act on the set itself");
  vp_assert(T(d) == T(T(s | bp) & T(~bq)), "add then remove");
  F g;
  g = s2;
  vp_assert((f == g) == (s == s2), "equality");
  vp_assert((f != g) == (s != s2), "inequality");
  uint64_t r = vp_range("r", 0, bits - 1);
  const T br = T(T(1) << r);
  vp_assert(T(F(E(p))) == bp, "built from one");
  vp_assert(T(F(E(p), E(q))) == T(bp | bq), "built from two");
  vp_assert(T(F(E(p), E(q), E(r))) == T(bp | bq | br), "built from three");
  vp_assert(T(F(f, E(p))) == T(s | bp), "extended by one");
  vp_assert(T(F(f, E(p), E(q))) == T(s | bp | bq), "extended by two");
}
enum class E8 : uint8_t { v };
enum class E16 : uint16_t { v };
enum class E32 : uint32_t { v };
enum class E64 : uint64_t { v };
enum class ES8 : int8_t { v };
enum class EInt { v };
VP_HARNESS(own_u8) { ops<es::Flags<E8>, E8, uint8_t>(); }
VP_HARNESS(own_u16) { ops<es::Flags<E16>, E16, uint16_t>(); }
VP_HARNESS(own_u32) { ops<es::Flags<E32>, E32, uint32_t>(); }
VP_HARNESS(own_u64) { ops<es::Flags<E64>, E64, uint64_t>(); }
VP_HARNESS(own_int) { ops<es::Flags<EInt>, EInt, uint32_t>(); }
VP_HARNESS(wide_u8_u64) { ops<es::Flags<E8, uint64_t>, E8, uint64_t>(); }
VP_HARNESS(wide_s8_u32) { ops<es::Flags<ES8, uint32_t>, ES8, uint32_t>(); }
VP_HARNESS(narrow_int_u8) { ops<es::Flags<EInt, uint8_t>, EInt, uint8_t>(); }
