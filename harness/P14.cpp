// P14  string-view slicing, copying, comparing, trimming
//vp: trim limit=6
#include "vp.h"
#include "datas/string_view.hpp"
#include "datas/supercore.hpp"

typedef es::string_view View;
static const size_t NPOS = View::npos;

struct Text {
  size_t n;
  char *t;
  View v;
  Text(const char *nm = "n", const char *bm = "text") {
    n = vp_size(nm);
    t = (char *)vp_buf(bm, n);
    v = View(t, n);
  }
};

static size_t min_(size_t a, size_t b) { return a < b ? a : b; }

VP_HARNESS(substr) {
  Text c;
  size_t pos = vp_u64("pos"), len = vp_u64("len");
  View r;
  bool threw = vp_throws([&] { r = c.v.substr(pos, len); });
  vp_assert(threw == (pos > c.n), "throws exactly when the start lies behind the end");
  if (!threw) {
    vp_assert(r.data() == c.t + pos, "starts at pos");
    vp_assert(r.size() == min_(len, c.n - pos), "shortened to what is there");
    vp_cover("ok");
  }
}
VP_HARNESS(substr_default) {
  Text c;
  size_t pos = vp_range("pos", 0, c.n);
  View r = c.v.substr(pos);
  vp_assert(r.data() == c.t + pos && r.size() == c.n - pos, "rest of the view");
}
VP_HARNESS(remove) {
  Text c;
  size_t k = vp_range("k", 0, c.n), l = vp_range("l", 0, c.n);
  vp_assume(k + l <= c.n);
  View v = c.v;
  v.remove_prefix(k);
  vp_assert(v.data() == c.t + k && v.size() == c.n - k, "prefix removed");
  v.remove_suffix(l);
  vp_assert(v.data() == c.t + k && v.size() == c.n - k - l, "suffix removed");
}
VP_HARNESS(access) {
  Text c;
  size_t i = vp_u64("i");
  vp_assert(c.v.size() == c.n && c.v.length() == c.n && c.v.empty() == (c.n == 0), "size");
  vp_assert(c.v.begin() == c.t && c.v.end() == c.t + c.n, "range");
  if (c.n) {
    vp_assert(&c.v.front() == c.t && &c.v.back() == c.t + c.n - 1, "ends");
    if (i < c.n) vp_assert(&c.v[i] == c.t + i, "element");
  }
  const char *p = nullptr;
  bool threw = vp_throws([&] { p = &c.v.at(i); });
  vp_assert(threw == (i >= c.n), "at() checks its index");
  if (!threw) vp_assert(p == c.t + i, "at() element");
}
VP_HARNESS(copy) {
  Text c;
  size_t cap = vp_size("cap"), count = vp_u64("count"), pos = vp_u64("pos"), k = vp_u64("k");
  char *d = (char *)vp_buf("dest", cap);
  char before = 0;
  if (k < cap) before = d[k];
  size_t want = pos > c.n ? 0 : min_(count, c.n - pos);
  vp_assume(want <= cap);
  size_t r = 0;
  bool threw = vp_throws([&] { r = c.v.copy(d, count, pos); });
  vp_assert(threw == (pos > c.n), "throws exactly when the start lies behind the end");
  if (!threw) {
    vp_assert(r == want, "number of characters copied");
    vp_cover("ok");
  }
  if (k < cap) {
    if (k < want) vp_assert(d[k] == c.t[pos + k], "characters copied");
    else vp_assert(d[k] == before, "nothing else written");
  }
}

// sign of a comparison, from the first difference d of the two texts
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class F> static void compare_spec(const char *a, size_t n, const char *b, size_t m, F run) {
  size_t lo = min_(n, m), d = vp_u64("d");
  vp_assume(d <= lo);
  auto same = [&](uint64_t i) { return a[i] == b[i]; };
  vp_assume_all(a, d, same);
  int want;
  if (d < lo) {
    vp_assume(a[d] != b[d]);
    want = (unsigned char)a[d] < (unsigned char)b[d] ? -1 : 1;
  } else
    want = n < m ? -1 : n > m;
  vp_touch(a + d);
  int r = run();
  vp_assert(r == want, "order of the first difference, then of the lengths");
  vp_cover("done");
}
VP_HARNESS(compare) {
  Text x, y("m", "other");
  compare_spec(x.t, x.n, y.t, y.n, [&] { return sgn(x.v.compare(y.v)); });
}
VP_HARNESS(compare_operators) {
  Text x, y("m", "other");
  compare_spec(x.t, x.n, y.t, y.n, [&] {
    bool l = x.v < y.v, g = x.v > y.v, e = x.v == y.v, ne = x.v != y.v, le = x.v <= y.v, ge = x.v >= y.v;
    vp_assert(ne == !e && le == !g && ge == !l, "operators agree");
    vp_assert(int(l) + int(g) + int(e) == 1, "exactly one relation");
    return l ? -1 : g ? 1 : 0;
  });
}
VP_HARNESS(compare_part) {
  Text x, y("m", "other");
  size_t p1 = vp_range("p1", 0, x.n), c1 = vp_u64("c1"), p2 = vp_range("p2", 0, y.n), c2 = vp_u64("c2");
  int form = vp_choose("form", 0, 2);
  if (form == 0) { p2 = 0; c2 = y.n; }
  if (form == 2) { p2 = 0; c2 = min_(c2, y.n); }
  compare_spec(x.t + p1, min_(c1, x.n - p1), y.t + p2, min_(c2, y.n - p2), [&] {
    return sgn(form == 0 ? x.v.compare(p1, c1, y.v) : form == 1 ? x.v.compare(p1, c1, y.v, p2, c2) : x.v.compare(p1, c1, y.t, c2));
  });
}
VP_HARNESS(compare_part_throws) {
  Text x, y("m", "other");
  size_t p1 = vp_u64("p1"), c1 = vp_u64("c1"), p2 = vp_u64("p2"), c2 = vp_u64("c2");
  bool threw = vp_throws([&] { x.v.compare(p1, c1, y.v, p2, c2); });
  vp_assert(threw == (p1 > x.n || p2 > y.n), "throws exactly for a start behind the end");
}

// ---- trimming
static bool blank(char c, bool nl) { return c == ' ' || c == '\t' || (nl && c == '\n'); }
VP_HARNESS(skip_start) {
  Text c;
  bool nl = vp_bool("nl");
  size_t k = vp_u64("k");
  auto inv = [&](uint64_t removed) { return !(k < removed) || blank(c.t[k], nl); };
  vp_inv1("what was removed is blank", inv);
  View r = es::SkipStartWhitespace(c.v, nl);
  vp_assert(r.data() >= c.t && r.data() + r.size() == c.t + c.n && r.size() <= c.n, "a suffix of the text");
  if (k < c.n - r.size()) vp_assert(blank(c.t[k], nl), "only blanks removed");
  if (r.size()) vp_assert(!blank(r[0], nl), "no blank left in front");
  vp_cover("done");
}
VP_HARNESS(skip_end) {
  Text c;
  bool nl = vp_bool("nl");
  size_t k = vp_u64("k");
  auto inv = [&](uint64_t size) { return !(k >= size && k < c.n) || blank(c.t[k], nl); };
  vp_inv1("what was removed is blank", inv);
  View r = es::SkipEndWhitespace(c.v, nl);
  vp_assert(r.data() == c.t && r.size() <= c.n, "a prefix of the text");
  if (k >= r.size() && k < c.n) vp_assert(blank(c.t[k], nl), "only blanks removed");
  if (r.size()) vp_assert(!blank(r[r.size() - 1], nl), "no blank left at the end");
  vp_cover("done");
}
VP_HARNESS(trim) {
  Text c;
  size_t k = vp_u64("k");
  auto inv = [&](uint64_t removed) { return !(k < removed) || blank(c.t[k], false); };
  auto inv2 = [&](uint64_t behind) { return behind <= c.n && (!(k >= c.n - behind && k < c.n) || blank(c.t[k], false)); };
  vp_inv1("what was removed in front is blank", inv);
  vp_inv1("what was removed behind is blank", inv2);
  View r = es::TrimWhitespace(c.v);
  vp_assert(r.data() >= c.t && r.data() + r.size() <= c.t + c.n && r.size() <= c.n, "a part of the text");
  size_t start = r.data() - c.t;
  if (k < start || (k >= start + r.size() && k < c.n)) vp_assert(blank(c.t[k], false), "only blanks removed");
  if (r.size()) vp_assert(!blank(r[0], false) && !blank(r[r.size() - 1], false), "no blank left at either end");
  vp_cover("done");
}
