// P29  Morton addressing
#include "vp.h"
#include "formats/addr_ps3.hpp"

struct Setup {
  unsigned lw, lh;
  size_t w, h;
  Setup(bool wide, bool square, unsigned lo, unsigned hi) {
    unsigned s = vp_choose("log2 shorter", lo, hi);
    unsigned l = square ? s : vp_choose("log2 longer", 1, 17);
    if (!square) vp_assume(l > s);
    lw = wide ? l : s;
    lh = wide ? s : l;
    w = size_t(1) << lw;
    h = size_t(1) << lh;
  }
};
static void check(bool wide, bool square, unsigned lo, unsigned hi) {
  Setup s(wide, square, lo, hi);
  MortonSettings m(s.w, s.h);
  size_t x = vp_u64("x"), y = vp_u64("y");
  vp_assume(x < s.w && y < s.h);
  size_t a = MortonAddr(x, y, m);
  vp_assert(a < s.w * s.h, "address inside the texture");
  // the coordinates can be recovered, so no two share an address
  unsigned n = s.lw < s.lh ? s.lw : s.lh;
  size_t rx = 0, ry = 0;
  for (unsigned b = 0; b < n; b++) {
    rx |= ((a >> (2 * b)) & 1) << b;
    ry |= ((a >> (2 * b + 1)) & 1) << b;
  }
  if (s.lw > s.lh) rx |= (a >> (2 * n)) << n;
  else ry |= (a >> (2 * n)) << n;
  vp_assert(rx == x, "x is the even address bits and the rest of the longer side");
  vp_assert(ry == y, "y is the odd address bits and the rest of the longer side");
  size_t x2 = vp_u64("x2"), y2 = vp_u64("y2");
  vp_assume(x2 < s.w && y2 < s.h && (x2 != x || y2 != y));
  vp_assert(MortonAddr(x2, y2, m) != a, "different coordinates have different addresses");
  vp_assert(m.width == s.w && m.height == s.h, "the settings keep the dimensions");
}
VP_HARNESS(square) { check(false, true, 0, 14); }
VP_HARNESS(wide_0) { check(true, false, 0, 3); }
VP_HARNESS(wide_4) { check(true, false, 4, 7); }
VP_HARNESS(wide_8) { check(true, false, 8, 11); }
VP_HARNESS(wide_12) { check(true, false, 12, 14); }
VP_HARNESS(tall_0) { check(false, false, 0, 3); }
VP_HARNESS(tall_4) { check(false, false, 4, 7); }
VP_HARNESS(tall_8) { check(false, false, 8, 11); }
VP_HARNESS(tall_12) { check(false, false, 12, 14); }
