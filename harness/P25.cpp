// P25  four-lane SIMD vectors, lane by lane
//vp: * fp=fp
//vp: products_real fp=real
#include "vp.h"
#include "datas/vectors_simd.hpp"

typedef V4SimdFltType F;
template <class V> struct In {
  typedef typename V::value_type T;
  V v;
  T c[4];
  In(const char *name) {
    T *p = (T *)vp_buf(name, 16);
    for (unsigned i = 0; i < 4; i++) v._arr[i] = c[i] = p[i];
  }
  void same(const char *name) const {
    vp_assert(memcmp(v._arr, c, 16) == 0, name);
  }
};
static uint32_t bits(float f) { uint32_t r; memcpy(&r, &f, 4); return r; }
static float flt(uint32_t f) { float r; memcpy(&r, &f, 4); return r; }
static bool eq(float a, float b) { return a == b || (a != a && b != b); }
static bool eq(int32_t a, int32_t b) { return a == b; }
static bool eq(uint32_t a, uint32_t b) { return a == b; }

#define LANES(r, expr, what)                                                                                           \
  for (unsigned i = 0; i < 4; i++) {                                                                                   \
    T a = A.c[i], b = B.c[i];                                                                                          \
    (void)a;                                                                                                           \
    (void)b;                                                                                                           \
    vp_assert(eq((r)._arr[i], T(expr)), what);                                                                         \
  }
#define OP(V, op, name)                                                                                                \
  {                                                                                                                    \
    V r = A.v op B.v;                                                                                                  \
    LANES(r, a op b, name " lane by lane")                                                                             \
    V w = A.v;                                                                                                         \
    auto &ref = (w op## = B.v);                                                                                        \
    vp_assert((void *)&ref == (void *)&w, name " assignment returns the object");                                      \
    LANES(w, a op b, name " assignment")                                                                               \
    V self = A.v;                                                                                                      \
    self op## = self;                                                                                                  \
    LANES(self, a op a, name " assignment from itself")                                                                \
    T s = B.c[0];                                                                                                      \
    V q = A.v op V(s);                                                                                                 \
    LANES(q, a op s, name " with a broadcast scalar")                                                                  \
    V u = A.v;                                                                                                         \
    u op## = s;                                                                                                        \
    LANES(u, a op s, name " assignment of a scalar")                                                                   \
  }
#define SCALAR(V, op, name)                                                                                            \
  {                                                                                                                    \
    T s = B.c[0];                                                                                                      \
    V q = A.v op s;                                                                                                    \
    LANES(q, a op s, name " with a scalar")                                                                            \
  }
#define BITOP(op, name)                                                                                                \
  {                                                                                                                    \
    F r = A.v op B.v, w = A.v, q = A.v op B.c[0], u = A.v;                                                             \
    w op## = B.v;                                                                                                      \
    u op## = B.c[0];                                                                                                   \
    for (unsigned i = 0; i < 4; i++) {                                                                                 \
      vp_assert(bits(r._arr[i]) == (bits(A.c[i]) op bits(B.c[i])), name " lane by lane");                              \
      vp_assert(bits(w._arr[i]) == (bits(A.c[i]) op bits(B.c[i])), name " assignment");                                \
      vp_assert(bits(q._arr[i]) == (bits(A.c[i]) op bits(B.c[0])), name " with a scalar");                             \
      vp_assert(bits(u._arr[i]) == (bits(A.c[i]) op bits(B.c[0])), name " assignment of a scalar");                    \
    }                                                                                                                  \
  }

VP_HARNESS(float_sum) {
  typedef float T;
  In<F> A("a"), B("b");
  OP(F, +, "sum")
  SCALAR(F, +, "sum")
  OP(F, -, "difference")
  SCALAR(F, -, "difference")
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
VP_HARNESS(float_product) {
  typedef float T;
  In<F> A("a"), B("b");
  OP(F, *, "product")
  SCALAR(F, *, "product")
  OP(F, /, "quotient")
  SCALAR(F, /, "quotient")
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
VP_HARNESS(float_unary) {
  In<F> A("a");
  F n = -A.v, k = ~A.v, q = A.v.QConjugate();
  int sign = 1;
  for (unsigned i = 0; i < 4; i++) {
    vp_assert(eq(n._arr[i], -A.c[i]), "negation");
    vp_assert(bits(k._arr[i]) == ~bits(A.c[i]), "complement");
    vp_assert(eq(q._arr[i], i == 3 ? A.c[i] : -A.c[i]), "conjugate negates the first three");
    if (bits(A.c[i]) >> 31) sign = -1;
  }
  vp_assert(A.v.Sign() == sign, "sign is negative exactly when a lane's sign bit is set");
  A.same("operand unchanged");
}
VP_HARNESS(float_bits) {
  In<F> A("a"), B("b");
  BITOP(&, "conjunction")
  BITOP(|, "disjunction")
  BITOP(^, "exclusive or")
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
VP_HARNESS(float_order) {
  In<F> A("a"), B("b");
  float s = B.c[0];
  bool lt = true, gt = true, slt = true, sgt = true;
  for (unsigned i = 0; i < 4; i++) {
    lt &= A.c[i] < B.c[i];
    gt &= A.c[i] > B.c[i];
    slt &= A.c[i] < s;
    sgt &= A.c[i] > s;
  }
  vp_assert((A.v < B.v) == lt, "less in every lane");
  vp_assert((A.v > B.v) == gt, "greater in every lane");
  vp_assert((A.v < s) == slt, "less than a scalar in every lane");
  vp_assert((A.v > s) == sgt, "greater than a scalar in every lane");
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
// the tolerance is the thread's, any value set for it
template <bool set> static void equality() {
  In<F> A("a"), B("b");
  float eps = FLT_EPSILON, s = B.c[0];
  if (set) {
    eps = flt(vp_u32("eps"));
    F::SetEpsilon(eps);
  }
  bool e = true, le = true, ge = true, se = true, sle = true, sge = true, sym = true;
  for (unsigned i = 0; i < 4; i++) {
    float a = A.c[i], b = B.c[i];
    bool x = a <= b + eps && a >= b - eps;
    bool y = a <= s + eps && a >= s - eps;
    bool z = a <= A.c[0] + eps && a >= A.c[0] - eps;
    e &= x;
    le &= x || a < b;
    ge &= x || a > b;
    sle &= y || a < s;
    sge &= y || a > s;
    sym &= z;
  }
  vp_assert((A.v == B.v) == e, "equality is equality in every lane");
  vp_assert((A.v != B.v) == !e, "inequality");
  vp_assert((A.v <= B.v) == le, "less or equal in every lane");
  vp_assert((A.v >= B.v) == ge, "greater or equal in every lane");
  vp_assert((A.v <= s) == sle, "less or equal to a scalar in every lane");
  vp_assert((A.v >= s) == sge, "greater or equal to a scalar in every lane");
  vp_assert(A.v.IsSymetrical() == sym, "symmetrical exactly when all lanes equal the first");
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
VP_HARNESS(float_equality) { equality<false>(); }
VP_HARNESS(float_equality_tolerance) { equality<true>(); }
VP_HARNESS(float_build) {
  In<F> A("a");
  F a(A.c[0], A.c[1], A.c[2], A.c[3]), z, s(A.c[0]), v(Vector(A.c[0], A.c[1], A.c[2]), A.c[3]), w(Vector4(A.c[0], A.c[1], A.c[2], A.c[3]));
  F d(A.v._data);
  for (unsigned i = 0; i < 4; i++) {
    vp_assert(bits(a._arr[i]) == bits(A.c[i]), "four values");
    vp_assert(bits(z._arr[i]) == 0, "empty vector");
    vp_assert(bits(s._arr[i]) == bits(A.c[0]), "broadcast");
    vp_assert(bits(v._arr[i]) == bits(A.c[i]), "three components and one value");
    vp_assert(bits(w._arr[i]) == bits(A.c[i]), "from a plain vector");
    vp_assert(bits(d._arr[i]) == bits(A.c[i]), "from a register");
  }
  Vector4A16 t(A.c[0], A.c[1], A.c[2], A.c[3]);
  Vector t3 = t;
  Vector2 t2 = t;
  vp_assert(bits(t3.X) == bits(A.c[0]) && bits(t3.Y) == bits(A.c[1]) && bits(t3.Z) == bits(A.c[2]), "three lanes");
  vp_assert(bits(t2.X) == bits(A.c[0]) && bits(t2.Y) == bits(A.c[1]), "two lanes");
}
template <unsigned i> static void to_int() {
  In<F> A("a");
  for (unsigned j = 0; j < 4; j++) vp_assume(A.c[j] > -2147483648.f && A.c[j] < 2147483648.f);
  V4SimdIntType r = A.v;
  auto t = A.v.Convert<int32>();
  double d = A.c[i], q = r._arr[i];
  vp_assert(d - q <= 0.5 && q - d <= 0.5, "nearest integer");
  vp_assert((d - q != 0.5 && q - d != 0.5) || !(r._arr[i] & 1), "ties to even");
  vp_assert(t._arr[i] == int32(A.c[i]), "truncated");
  A.same("operand unchanged");
}
VP_HARNESS(float_to_int_x) { to_int<0>(); }
VP_HARNESS(float_to_int_y) { to_int<1>(); }
VP_HARNESS(float_to_int_z) { to_int<2>(); }
VP_HARNESS(float_to_int_w) { to_int<3>(); }

template <class T> static void ints() {
  typedef V4SimdIntType_t<T> V;
  In<V> A("a"), B("b");
  OP(V, +, "sum")
  SCALAR(V, +, "sum")
  OP(V, -, "difference")
  SCALAR(V, -, "difference")
  OP(V, *, "product")
  SCALAR(V, *, "product")
  OP(V, &, "conjunction")
  SCALAR(V, &, "conjunction")
  OP(V, |, "disjunction")
  SCALAR(V, |, "disjunction")
  OP(V, ^, "exclusive or")
  V k = ~A.v;
  LANES(k, ~a, "complement")
  bool e = true;
  for (unsigned i = 0; i < 4; i++) e &= A.c[i] == B.c[i];
  vp_assert((A.v == B.v) == e, "equality is equality in every lane");
  vp_assert((A.v != B.v) == !e, "inequality");
  V f4(A.c[0], A.c[1], A.c[2], A.c[3]), z, s(A.c[0]), w(t_Vector4<T>(A.c[0], A.c[1], A.c[2], A.c[3]));
  LANES(f4, a, "four values")
  LANES(z, 0, "empty vector")
  LANES(s, A.c[0], "broadcast")
  LANES(w, a, "from a plain vector")
  V4SimdIntType_t<int32> si(A.v);
  V4SimdIntType_t<uint32> ui(A.v);
  for (unsigned i = 0; i < 4; i++) {
    vp_assert(si._arr[i] == int32(A.c[i]), "as signed lanes");
    vp_assert(ui._arr[i] == uint32(A.c[i]), "as unsigned lanes");
  }
  auto n = A.v.template Convert<int16>();
  for (unsigned i = 0; i < 4; i++) vp_assert(n._arr[i] == int16(A.c[i]), "narrowed lanes");
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
VP_HARNESS(int_ops) { ints<int32>(); }
VP_HARNESS(uint_ops) { ints<uint32>(); }
template <class T> static void shifts() {
  typedef V4SimdIntType_t<T> V;
  In<V> A("a");
  auto &B = A;
  T s = vp_range("shift", 0, 31);
  V l = A.v << s, r = A.v >> s, la = A.v, ra = A.v;
  la <<= s;
  ra >>= s;
  LANES(l, a << s, "left shift")
  LANES(la, a << s, "left shift assignment")
  LANES(r, a >> s, "right shift")
  LANES(ra, a >> s, "right shift assignment")
  A.same("operand unchanged");
}
VP_HARNESS(int_shift) { shifts<int32>(); }
VP_HARNESS(uint_shift) { shifts<uint32>(); }
VP_HARNESS(int_to_float) {
  In<V4SimdIntType_t<int32>> A("a");
  F r = A.v;
  for (unsigned i = 0; i < 4; i++) vp_assert(bits(r._arr[i]) == bits(float(A.c[i])), "lane as float");
  A.same("operand unchanged");
}
template <unsigned i> static void uint_lane() {
  In<V4SimdIntType_t<uint32>> A("a");
  F r = A.v;
  vp_assert(bits(r._arr[i]) == bits(float(A.c[i])), "lane as float");
  A.same("operand unchanged");
}
VP_HARNESS(uint_to_float_x) { uint_lane<0>(); }
VP_HARNESS(uint_to_float_y) { uint_lane<1>(); }
VP_HARNESS(uint_to_float_z) { uint_lane<2>(); }
VP_HARNESS(uint_to_float_w) { uint_lane<3>(); }
// over the reals: every order of summation is the same
VP_HARNESS(products_real) {
  F a, b;
  float d = 0;
  for (unsigned i = 0; i < 4; i++) {
    a._arr[i] = vp_real("a"), b._arr[i] = vp_real("b");
    d += a._arr[i] * b._arr[i];
  }
  vp_assert(a.Dot(b) == d, "dot product");
  F v = a.DotV(b);
  for (unsigned i = 0; i < 4; i++) vp_assert(v._arr[i] == d, "dot product in every lane");
  F r = a.Cross(b);
  vp_assert(r.X == a.Y * b.Z - a.Z * b.Y, "cross product x");
  vp_assert(r.Y == a.Z * b.X - a.X * b.Z, "cross product y");
  vp_assert(r.Z == a.X * b.Y - a.Y * b.X, "cross product z");
}
