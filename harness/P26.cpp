// P26  plain vectors, component by component
//vp-flags: -Wno-c++11-narrowing
//vp: products_real fp=real
//vp: float2 fp=fp
//vp: float3 fp=fp
//vp: float4 fp=fp
//vp: double4 fp=fp
#include "vp.h"
#include "datas/vectors.hpp"
#include "datas/endian.hpp"

template <class V> struct Dim;
template <class T> struct Dim<t_Vector2<T>> { static constexpr unsigned n = 2; template <class U> using with = t_Vector2<U>; };
template <class T> struct Dim<t_Vector<T>> { static constexpr unsigned n = 3; template <class U> using with = t_Vector<U>; };
template <class T> struct Dim<V4ScalarType<T>> { static constexpr unsigned n = 4; template <class U> using with = V4ScalarType<U>; };
template <class T> struct Dim<t_Vector4_<V4ScalarType<T>>> { static constexpr unsigned n = 4; template <class U> using with = V4ScalarType<U>; };

template <class V> struct In {
  static constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  V v;
  T c[4];
  In(const char *name) {
    T *p = (T *)vp_buf(name, n * sizeof(T));
    for (unsigned i = 0; i < n; i++) v._arr[i] = c[i] = p[i];
  }
  void same(const char *name) const {
    for (unsigned i = 0; i < n; i++) vp_assert(memcmp(&v._arr[i], &c[i], sizeof(T)) == 0, name);
  }
};
template <class T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0> static bool eq(T a, T b) {
  return a == b || (a != a && b != b);
}
template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> static bool eq(T a, T b) { return a == b; }

#define EACH(expr, what)                                                                                               \
  for (unsigned i = 0; i < n; i++) {                                                                                   \
    T a = A.c[i], b = B.c[i];                                                                                          \
    (void)a;                                                                                                           \
    (void)b;                                                                                                           \
    vp_assert(eq(r._arr[i], T(expr)), what);                                                                           \
  }
// the plain, compound, scalar and compound scalar forms of one operator
#define OP(op, name)                                                                                                   \
  {                                                                                                                    \
    Base r(A.v op B.v);                                                                                                \
    EACH(a op b, name " component by component");                                                                      \
    V w(A.v);                                                                                                          \
    auto &ref = (w op## = B.v);                                                                                        \
    vp_assert((void *)&ref == (void *)&w, name " assignment returns the object");                                      \
    r = w;                                                                                                             \
    EACH(a op b, name " assignment");                                                                                  \
    V self(A.v);                                                                                                       \
    self op## = self;                                                                                                  \
    r = self;                                                                                                          \
    EACH(a op a, name " assignment from itself");                                                                      \
  }                                                                                                                    \
  {                                                                                                                    \
    T s = B.c[0];                                                                                                      \
    Base r(A.v op s);                                                                                                  \
    EACH(a op s, name " with a scalar");                                                                               \
    V w(A.v);                                                                                                          \
    w op## = s;                                                                                                        \
    r = w;                                                                                                             \
    EACH(a op s, name " assignment of a scalar");                                                                      \
  }
#define SHIFT(op, name)                                                                                                \
  {                                                                                                                    \
    typename Dim<V>::template with<int32> sh;                                                                          \
    for (unsigned i = 0; i < n; i++) sh._arr[i] = K.c[i];                                                              \
    Base r(A.v op sh);                                                                                                 \
    for (unsigned i = 0; i < n; i++) vp_assert(r._arr[i] == T(A.c[i] op K.c[i]), name " component by component");       \
    V w(A.v);                                                                                                          \
    w op## = sh;                                                                                                       \
    r = w;                                                                                                             \
    for (unsigned i = 0; i < n; i++) vp_assert(r._arr[i] == T(A.c[i] op K.c[i]), name " assignment");                   \
    Base q(A.v op K.c[0]);                                                                                             \
    for (unsigned i = 0; i < n; i++) vp_assert(q._arr[i] == T(A.c[i] op K.c[0]), name " with a scalar");                \
    V u(A.v);                                                                                                          \
    u op## = K.c[0];                                                                                                   \
    q = u;                                                                                                             \
    for (unsigned i = 0; i < n; i++) vp_assert(q._arr[i] == T(A.c[i] op K.c[0]), name " assignment of a scalar");       \
  }
template <class V> struct BaseOf { typedef V type; };
template <class C> struct BaseOf<t_Vector4_<C>> { typedef C type; };

template <class V> static void common() {
  typedef typename BaseOf<V>::type Base;
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a"), B("b");
  OP(+, "sum")
  OP(-, "difference")
  OP(*, "product")
  for (unsigned i = 0; i < n; i++) {
    V m(A.v);
    m[i] = B.c[i];
    const V &cm = m;
    vp_assert(eq(cm[i], B.c[i]), "component access");
    for (unsigned j = 0; j < n; j++)
      if (j != i) vp_assert(eq(m._arr[j], A.c[j]), "component access leaves the others");
  }
  {
    V z;
    Base bc(B.c[0]);
    for (unsigned i = 0; i < n; i++) {
      vp_assert(eq(z._arr[i], T(0)), "empty vector");
      vp_assert(eq(bc._arr[i], B.c[0]), "broadcast");
    }
  }
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
template <class V> static void division() {
  typedef typename BaseOf<V>::type Base;
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a"), B("b");
  for (unsigned i = 0; i < n; i++)
    vp_assume(A.c[i] != 0 && B.c[i] != 0 && (!std::is_signed<T>::value || (T(B.c[i] + 1) != 0 && T(A.c[i] + 1) != 0)));
  OP(/, "quotient")
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
template <class V> static void quotient() {
  typedef typename BaseOf<V>::type Base;
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a"), B("b");
  OP(/, "quotient")
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
template <class V> static void compare() {
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a"), B("b");
  bool all = true;
  for (unsigned i = 0; i < n; i++) {
    T a = A.c[i], b = B.c[i];
    if (std::is_integral<T>::value) all &= a == b;
    else all &= (a <= (b + T(FLT_EPSILON))) & (a >= (b - T(FLT_EPSILON)));
  }
  vp_assert((A.v == B.v) == all, "equality is equality of all components");
  vp_assert((A.v != B.v) == !all, "inequality");
  A.same("left operand unchanged");
  B.same("right operand unchanged");
}
template <class V> static void negate() {
  typedef typename BaseOf<V>::type Base;
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a");
  Base r(-A.v);
  for (unsigned i = 0; i < n; i++) vp_assert(eq(r._arr[i], T(-A.c[i])), "negation");
  A.same("operand unchanged");
}
template <class V> static void bits() {
  typedef typename BaseOf<V>::type Base;
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a"), B("b");
  In<typename Dim<V>::template with<int32>> K("shift");
  for (unsigned i = 0; i < n; i++) vp_assume(K.c[i] >= 0 && K.c[i] < int(8 * (sizeof(T) < 4 ? 4 : sizeof(T))));
  OP(&, "conjunction")
  OP(|, "disjunction")
  SHIFT(<<, "left shift")
  SHIFT(>>, "right shift")
  A.same("left operand unchanged");
  B.same("right operand unchanged");
  K.same("shift unchanged");
}
template <class V, class D> static void convert() {
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a");
  auto r = A.v.template Convert<D>();
  for (unsigned i = 0; i < n; i++) vp_assert(eq(r._arr[i], static_cast<D>(A.c[i])), "converted component");
  A.same("operand unchanged");
}
template <class V> static void sign() {
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a");
  bool neg = false, sym = true;
  for (unsigned i = 0; i < n; i++) neg |= A.c[i] < 0, sym &= A.c[i] == A.c[0];
  vp_assert(A.v.Sign() == (neg ? -1 : 1), "sign is negative exactly when a component is");
  vp_assert(A.v.IsSymetrical() == sym, "symmetry is equality of the components");
}
template <class V> static void dot() {
  constexpr unsigned n = Dim<V>::n;
  typedef typename V::value_type T;
  In<V> A("a"), B("b");
  T d = 0;
  for (unsigned i = 0; i < n; i++) d = T(d + T(A.c[i] * B.c[i]));
  vp_assert(A.v.Dot(B.v) == d, "dot product");
  A.same("left operand unchanged");
}
template <class T> static void cross() {
  In<t_Vector<T>> A("a"), B("b");
  t_Vector<T> r = A.v.Cross(B.v);
  vp_assert(r.X == T(A.c[1] * B.c[2] - A.c[2] * B.c[1]), "cross product x");
  vp_assert(r.Y == T(A.c[2] * B.c[0] - A.c[0] * B.c[2]), "cross product y");
  vp_assert(r.Z == T(A.c[0] * B.c[1] - A.c[1] * B.c[0]), "cross product z");
  A.same("left operand unchanged");
}
template <class T> static void all_int() {
  common<t_Vector2<T>>(), common<t_Vector<T>>(), common<t_Vector4<T>>();
  compare<t_Vector2<T>>(), compare<t_Vector<T>>(), compare<t_Vector4<T>>();
  bits<t_Vector2<T>>(), bits<t_Vector<T>>(), bits<t_Vector4<T>>();
  negate<t_Vector2<T>>(), negate<t_Vector<T>>(), negate<t_Vector4<T>>();
  dot<t_Vector2<T>>(), dot<t_Vector<T>>(), dot<t_Vector4<T>>();
  cross<T>();
  sign<t_Vector2<T>>(), sign<t_Vector<T>>(), sign<t_Vector4<T>>();
}
VP_HARNESS(int32_) { all_int<int32>(); }
VP_HARNESS(uint32_) { all_int<uint32>(); }
VP_HARNESS(int16_) { all_int<int16>(); }
VP_HARNESS(uint8_) { all_int<uint8>(); }
VP_HARNESS(int64_) { all_int<int64>(); }
VP_HARNESS(uint64_) { all_int<uint64>(); }
VP_HARNESS(division_int32) { division<t_Vector2<int32>>(), division<t_Vector<int32>>(), division<t_Vector4<int32>>(); }
VP_HARNESS(division_uint16) { division<t_Vector2<uint16>>(), division<t_Vector<uint16>>(), division<t_Vector4<uint16>>(); }
VP_HARNESS(division_uint64) { division<t_Vector2<uint64>>(), division<t_Vector<uint64>>(), division<t_Vector4<uint64>>(); }
template <class V> static void flt() { common<V>(), quotient<V>(), compare<V>(), negate<V>(); }
VP_HARNESS(float2) { flt<t_Vector2<float>>(); }
VP_HARNESS(float3) { flt<t_Vector<float>>(); }
VP_HARNESS(float4) { flt<t_Vector4<float>>(); }
VP_HARNESS(double4) { flt<t_Vector4<double>>(); }
VP_HARNESS(conversions) {
  convert<t_Vector2<int32>, int16>(), convert<t_Vector<int32>, uint8>(), convert<t_Vector4<int16>, int64>();
  convert<t_Vector2<uint8>, int32>(), convert<t_Vector<int8>, uint32>(), convert<t_Vector4<uint32>, uint16>();
  convert<t_Vector2<int16>, float>(), convert<t_Vector<uint8>, float>(), convert<t_Vector4<int32>, double>();
  In<t_Vector<int32>> A("a3");
  t_Vector2<int32> t2 = A.v;
  vp_assert(t2.X == A.c[0] && t2.Y == A.c[1], "three to two components");
  In<t_Vector4<int32>> B("a4");
  t_Vector<int32> t3 = B.v;
  t_Vector2<int32> u2 = B.v;
  vp_assert(t3.X == B.c[0] && t3.Y == B.c[1] && t3.Z == B.c[2], "four to three components");
  vp_assert(u2.X == B.c[0] && u2.Y == B.c[1], "four to two components");
}
// over the reals: every order of summation is the same
template <class V> static void dotr() {
  constexpr unsigned n = Dim<V>::n;
  V a, b;
  float d = 0;
  for (unsigned i = 0; i < n; i++) {
    a._arr[i] = vp_real("a"), b._arr[i] = vp_real("b");
    d += a._arr[i] * b._arr[i];
  }
  vp_assert(a.Dot(b) == d, "dot product");
}
VP_HARNESS(products_real) {
  dotr<Vector2>(), dotr<Vector>(), dotr<Vector4>();
  Vector a(vp_real("a"), vp_real("a"), vp_real("a")), b(vp_real("b"), vp_real("b"), vp_real("b"));
  Vector r = a.Cross(b);
  vp_assert(r.X == a.Y * b.Z - a.Z * b.Y, "cross product x");
  vp_assert(r.Y == a.Z * b.X - a.X * b.Z, "cross product y");
  vp_assert(r.Z == a.X * b.Y - a.Y * b.X, "cross product z");
}
