// P13  string-view searches
// (two-place invariants: first the inner loop counter, then the outer one)
#include "vp.h"
#include "datas/string_view.hpp"

typedef es::string_view View;
static const size_t NPOS = View::npos;

struct Case {
  size_t n, m, pos, j, k;
  char *t, *p;
  View text, pat;
  Case() {
    n = vp_size("n");
    m = vp_size("m");
    pos = vp_u64("pos");
    t = (char *)vp_buf("text", n);
    p = (char *)vp_buf("pattern", m);
    text = View(t, n);
    pat = View(p, m);
    j = vp_u64("j"); // any other candidate position
    k = vp_u64("k"); // any index into the pattern
  }
};

// ---- substring
static void find_spec(Case &c, size_t r) {
  if (r != NPOS) {
    vp_assert(r >= c.pos, "not before the start position");
    vp_assert(c.m <= c.n && r <= c.n - c.m, "match inside the view");
    if (c.k < c.m) vp_assert(c.t[r + c.k] == c.p[c.k], "reported position matches");
  }
  vp_cover("done");
}
VP_HARNESS(find_is_match) {
  Case c;
  auto inv = [&](uint64_t q, uint64_t i) { return !(c.k < q) || c.t[i + c.k] == c.p[c.k]; };
  vp_inv2("prefix matches", inv);
  size_t r = c.text.find(c.pat, c.pos);
  find_spec(c, r);
}
VP_HARNESS(find_is_first) {
  Case c;
  vp_assume(c.j >= c.pos && c.m <= c.n && c.j <= c.n - c.m);
  auto eq = [&](uint64_t i) { return c.t[c.j + i] == c.p[i]; };
  vp_assume_all(c.p, c.m, eq);
  auto inv = [&](uint64_t i) { return i <= c.j; };
  vp_inv1("match is still ahead", inv);
  size_t r = c.text.find(c.pat, c.pos);
  vp_assert(r != NPOS && r <= c.j, "no match is skipped");
  vp_cover("done");
}
VP_HARNESS(rfind_is_match) {
  Case c;
  auto inv = [&](uint64_t q, uint64_t i) { return !(c.k < q) || c.t[i + c.k] == c.p[c.k]; };
  vp_inv2("prefix matches", inv);
  size_t r = c.text.rfind(c.pat, c.pos);
  if (r != NPOS) {
    vp_assert(r <= c.pos, "not after the start position");
    vp_assert(c.m <= c.n && r <= c.n - c.m, "match inside the view");
    if (c.k < c.m) vp_assert(c.t[r + c.k] == c.p[c.k], "reported position matches");
  }
  vp_cover("done");
}
VP_HARNESS(rfind_is_last) {
  Case c;
  vp_assume(c.j <= c.pos && c.m <= c.n && c.j <= c.n - c.m);
  auto eq = [&](uint64_t i) { return c.t[c.j + i] == c.p[i]; };
  vp_assume_all(c.p, c.m, eq);
  auto inv = [&](uint64_t i) { return i != NPOS && i >= c.j; };
  vp_inv1("match is still ahead", inv);
  size_t r = c.text.rfind(c.pat, c.pos);
  vp_assert(r != NPOS && r >= c.j, "no match is skipped");
  vp_cover("done");
}

// ---- sets of characters
template <bool forward, bool inSet, class F> static void set_search(F search) {
  Case c;
  auto fwd = [&](uint64_t i) { return i <= c.j; };
  auto bwd = [&](uint64_t i) { return i != NPOS && i >= c.j; };
  auto notYet = [&](uint64_t q, uint64_t i) { return !(c.k < q) || c.t[i] != c.p[c.k]; };
  auto differs = [&](uint64_t i) { return c.p[i] != c.t[c.j]; };
  bool cand = vp_bool("cand");
  if (cand) {
    vp_assume(c.j < c.n && (forward ? c.j >= c.pos : c.j <= c.pos));
    if (inSet) {
      size_t s = vp_u64("s");
      vp_assume(s == c.k && s < c.m && c.p[s] == c.t[c.j]);
    } else
      vp_assume_all(c.p, c.m, differs);
    if (forward)
      vp_inv1("candidate is still ahead", fwd);
    else
      vp_inv1("candidate is still ahead", bwd);
  }
  vp_inv2("no set character seen", notYet);
  size_t r = search(c.text, c.pat, c.pos);
  if (r != NPOS) {
    vp_assert(r < c.n, "position inside the view");
    vp_assert(forward ? r >= c.pos : r <= c.pos, "on the right side of the start position");
    if (inSet)
      vp_assert(vp_exists_byte(c.p, c.m, c.t[r]), "reported character is in the set");
    else if (c.k < c.m)
      vp_assert(c.t[r] != c.p[c.k], "reported character is not in the set");
  }
  if (cand) vp_assert(r != NPOS && (forward ? r <= c.j : r >= c.j), "no candidate is skipped");
  vp_cover("done");
}
VP_HARNESS(find_first_of) { set_search<true, true>([](View t, View p, size_t pos) { return t.find_first_of(p, pos); }); }
VP_HARNESS(find_last_of) { set_search<false, true>([](View t, View p, size_t pos) { return t.find_last_of(p, pos); }); }
VP_HARNESS(find_first_not_of) { set_search<true, false>([](View t, View p, size_t pos) { return t.find_first_not_of(p, pos); }); }
VP_HARNESS(find_last_not_of) { set_search<false, false>([](View t, View p, size_t pos) { return t.find_last_not_of(p, pos); }); }
