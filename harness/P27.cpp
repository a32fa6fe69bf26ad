// P27  4x4 matrices (over the reals)
//vp-src: datas/matrix44.cpp
//vp: * fp=real
//vp: transpose fp=uf
//vp: transpose_full fp=uf
#include "vp.h"
#include "datas/matrix44.hpp"

static Vector4A16 vec(const char *n) { return Vector4A16(vp_real(n), vp_real(n), vp_real(n), vp_real(n)); }
static esMatrix44 mat(const char *n) { return esMatrix44(vec(n), vec(n), vec(n), vec(n)); }
static uint32_t bitsOf(float f) {
  uint32_t r;
  memcpy(&r, &f, 4);
  return r;
}
// equal over the reals; natively up to rounding
static bool same(float a, float b) {
#ifdef VP_ENGINE
  return a == b;
#else
  const float d = a > b ? a - b : b - a, m = (a < 0 ? -a : a) + (b < 0 ? -b : b) + 1.f;
  return d <= m * 1e-3f;
#endif
}
static Vector4A16 bits(const char *n) {
  uint32_t b[4];
  float f[4];
  for (int i = 0; i < 4; i++) b[i] = vp_u32(n);
  memcpy(f, b, 16);
  return Vector4A16(f[0], f[1], f[2], f[3]);
}
VP_HARNESS(transpose) {
  esMatrix44 m(bits("m"), bits("m"), bits("m"), bits("m"));
  esMatrix44 t = m;
  t.Transpose();
  for (int r = 0; r < 3; r++)
    for (int c = 0; c < 3; c++) vp_assert(bitsOf(t[r][c]) == bitsOf(m[c][r]), "mirrored");
  for (int c = 0; c < 4; c++) vp_assert(bitsOf(t[3][c]) == bitsOf(m[3][c]), "the fourth row stays");
  t.Transpose();
  for (int r = 0; r < 3; r++)
    for (int c = 0; c < 3; c++) vp_assert(bitsOf(t[r][c]) == bitsOf(m[r][c]), "twice is the identity");
}
VP_HARNESS(transpose_full) {
  esMatrix44 m(bits("m"), bits("m"), bits("m"), bits("m"));
  esMatrix44 t = m;
  t.TransposeFull();
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++) vp_assert(bitsOf(t[r][c]) == bitsOf(m[c][r]), "mirrored");
  t.TransposeFull();
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++) vp_assert(bitsOf(t[r][c]) == bitsOf(m[r][c]), "twice is the identity");
}
VP_HARNESS(identity) {
  esMatrix44 m;
  esMatrix44 n = mat("m");
  n.MakeIdentity();
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++) vp_assert(m[r][c] == (r == c ? 1.f : 0.f) && n[r][c] == m[r][c], "identity");
}
VP_HARNESS(product) {
  esMatrix44 a = mat("a"), b = mat("b");
  const esMatrix44 a0 = a, b0 = b;
  esMatrix44 p = a * b;
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++) {
      vp_assert(same(p[r][c], a0[r][0] * b0[0][c] + a0[r][1] * b0[1][c] + a0[r][2] * b0[2][c] + a0[r][3] * b0[3][c]),
                "row by column");
      vp_assert(a[r][c] == a0[r][c] && b[r][c] == b0[r][c], "operands unchanged");
    }
  a *= b;
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++) vp_assert(same(a[r][c], p[r][c]), "compound product");
  esMatrix44 s = b0;
  s *= s;
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++)
      vp_assert(same(s[r][c], b0[r][0] * b0[0][c] + b0[r][1] * b0[1][c] + b0[r][2] * b0[2][c] + b0[r][3] * b0[3][c]),
                "product with itself");
}
VP_HARNESS(rotate_point) {
  esMatrix44 m = mat("m");
  for (int r = 0; r < 3; r++) m[r].W = 0.f;
  const esMatrix44 m0 = m;
  Vector4A16 p = vec("p");
  Vector4A16 q = m.RotatePoint(p);
  for (int c = 0; c < 3; c++) vp_assert(same(q[c], p[0] * m0[0][c] + p[1] * m0[1][c] + p[2] * m0[2][c]), "row vector times matrix");
  vp_assert(q.W == 1.f, "a point");
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++) vp_assert(m[r][c] == m0[r][c], "operand unchanged");
}
// for every quaternion q and vector v:  M(q) v = q v q* + (1 - |q|^2) v,  so for unit quaternions M(q) v is v rotated by q
static void rotates(const esMatrix44 &m, const Vector4A16 &q) {
  Vector4A16 v = vec("v");
  const float x = q.X, y = q.Y, z = q.Z, w = q.W;
  const float d = x * v.X + y * v.Y + z * v.Z, uu = x * x + y * y + z * z;
  const float k = w * w - uu + (1.f - uu - w * w);
  const float cross[3] = {y * v.Z - z * v.Y, z * v.X - x * v.Z, x * v.Y - y * v.X};
  for (int r = 0; r < 3; r++) {
    vp_assert(same(m[r][0] * v.X + m[r][1] * v.Y + m[r][2] * v.Z, k * v[r] + 2.f * d * q[r] + 2.f * w * cross[r]),
              "rotated as the quaternion does");
    vp_assert(m[r].W == 0.f, "fourth column");
  }
}
VP_HARNESS(from_quat) {
  Vector4A16 q = vec("q");
  esMatrix44 m(q);
  rotates(m, q);
  for (int c = 0; c < 4; c++) vp_assert(m[3][c] == (c == 3 ? 1.f : 0.f), "fourth row");
}
VP_HARNESS(from_quat_existing) {
  Vector4A16 q = vec("q");
  esMatrix44 m = mat("m");
  const Vector4A16 last = m[3];
  m.FromQuat(q);
  rotates(m, q);
  for (int c = 0; c < 4; c++) vp_assert(m[3][c] == last[c], "fourth row stays");
}
VP_HARNESS(compose) {
  Vector4A16 p = vec("p"), q = vec("q"), s = vec("s");
  esMatrix44 m = mat("m"), r(q);
  m.Compose(p, q, s);
  for (int i = 0; i < 3; i++)
    for (int c = 0; c < 3; c++) vp_assert(same(m[i][c], r[i][c] * s[i]), "scaled rows");
  for (int c = 0; c < 4; c++) vp_assert(m[3][c] == p[c], "position");
}
static Vector4A16 unit() {
  Vector4A16 q = vec("q");
#ifdef VP_ENGINE
  vp_assume(q.X * q.X + q.Y * q.Y + q.Z * q.Z + q.W * q.W == 1.f);
#else
  const float l = sqrtf(q.X * q.X + q.Y * q.Y + q.Z * q.Z + q.W * q.W);
  vp_assume(l > 1e-3f);
  q = Vector4A16(q.X / l, q.Y / l, q.Z / l, q.W / l);
#endif
  return q;
}
// an orthonormal rotation (rows and columns) and a translation
static esMatrix44 rigid() {
#ifdef VP_ENGINE
  esMatrix44 m = mat("m");
  for (int r = 0; r < 3; r++) m[r].W = 0.f;
  m[3].W = 1.f;
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) {
      vp_assume(m[i][0] * m[j][0] + m[i][1] * m[j][1] + m[i][2] * m[j][2] == (i == j ? 1.f : 0.f));
      vp_assume(m[0][i] * m[0][j] + m[1][i] * m[1][j] + m[2][i] * m[2][j] == (i == j ? 1.f : 0.f));
    }
#else
  esMatrix44 m(unit());
  m[3] = Vector4A16(vp_real("m"), vp_real("m"), vp_real("m"), 1.f);
#endif
  return m;
}
VP_HARNESS(inverse) {
  esMatrix44 m = rigid();
  const esMatrix44 m0 = m;
  esMatrix44 i = -m;
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++) vp_assert(m[r][c] == m0[r][c], "operand unchanged");
  for (int r = 0; r < 3; r++)
    for (int c = 0; c < 4; c++)
      vp_assert(same(i[r][0] * m0[0][c] + i[r][1] * m0[1][c] + i[r][2] * m0[2][c] + i[r][3] * m0[3][c], r == c ? 1.f : 0.f),
                "the rotation is undone");
  vp_assert(i[3].W == 1.f, "affine");
  // the matrix maps p to (row . p) + fourth row
  Vector4A16 p = vec("p");
  float q[3];
  for (int r = 0; r < 3; r++) q[r] = m0[r][0] * p.X + m0[r][1] * p.Y + m0[r][2] * p.Z + m0[3][r];
  for (int r = 0; r < 3; r++)
    vp_assert(same(i[r][0] * q[0] + i[r][1] * q[1] + i[r][2] * q[2] + i[3][r], p[r]), "the map is undone");
}
// a unit quaternion turned into a matrix and back is the quaternion up to its sign
VP_HARNESS(to_quat) {
  Vector4A16 q = unit();
  esMatrix44 m(q);
  Vector4A16 r = m.ToQuat();
  vp_assert((same(r.X, q.X) && same(r.Y, q.Y) && same(r.Z, q.Z) && same(r.W, q.W)) ||
                (same(r.X, -q.X) && same(r.Y, -q.Y) && same(r.Z, -q.Z) && same(r.W, -q.W)),
            "back to the quaternion");
}
