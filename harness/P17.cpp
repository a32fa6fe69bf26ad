// P17  relocatable pointers
//vp: resolved_before limit=2 feas_ms=300
//vp: resolved_before32 limit=2 feas_ms=300
//vp: unresolved limit=2 feas_ms=300
//vp: unresolved32 limit=2 feas_ms=300
#include "vp.h"
#include <new>
#include "datas/pointer.hpp"

namespace es {
thread_local std::vector<void *> usedPts;
}
typedef es::Pointer_t<char, uint64_t> P64;
typedef es::PointerX86<char> P32;

// the table of resolved slots: any number of entries
struct Table {
  size_t n;
  uint64_t *entries;
  Table() {
    n = vp_range("resolved", 0, uint64_t(1) << 32);
    entries = (uint64_t *)vp_buf("table", 8 * (n + 1));
    uint64_t **raw = (uint64_t **)&es::usedPts;
    raw[0] = entries;
    raw[1] = entries + n;
    raw[2] = entries + n + 1;
  }
  ~Table() {
    uint64_t **raw = (uint64_t **)&es::usedPts;
    raw[0] = raw[1] = raw[2] = nullptr;
  }
  uint64_t *end() { return ((uint64_t **)&es::usedPts)[1]; }
};
VP_HARNESS(once) {
  char *base = (char *)vp_buf("image", 4096);
  P64 &p = *(P64 *)(base + 8);
  uint64_t off = vp_u64("offset");
  memcpy(base + 8, &off, 8);
  vp_assume(off < 4096);
  size_t i = vp_range("byte", 0, 4095);
  char before = base[i];
  vp_assert(!p.Fixed(), "a fresh slot is not resolved");
  bool r = p.Fixup(base);
  vp_assert(r == (off != 0), "resolving reports whether there was an offset");
  char *got = p;
  if (off) vp_assert(got == base + off, "base plus offset");
  else vp_assert(got == nullptr, "null stays null");
  vp_assert(p.Fixed(), "the slot is resolved");
  vp_assert(i - 8 < 8 || base[i] == before, "only the slot is written");
  vp_assert(!p.Fixup(base), "resolving again does nothing");
  vp_assert((char *)p == got, "resolving again does nothing");
  if (off) {
    vp_assert(&*p == got && p.operator->() == got, "dereference");
    const P64 &c = p;
    vp_assert(&*c == got && c.operator->() == got, "const dereference");
  }
}
VP_HARNESS(assign) {
  char *base = (char *)vp_buf("image", 4096);
  P64 &p = *(P64 *)(base + 8);
  char *t = base + vp_range("at", 0, 4095);
  p = t;
  vp_assert((char *)p == t, "assigned address reads back");
}
VP_HARNESS(once32) {
  char *base = (char *)vp_buf("image", uint64_t(1) << 31);
  P32 &p = *(P32 *)(base + 8);
  int32_t off = vp_range("offset", 0, 0x7fffffff);
  vp_assume(off != 8); // a slot cannot designate itself
  memcpy(base + 8, &off, 4);
  size_t i = vp_range("byte", 0, 0x7fffffff);
  char before = base[i];
  vp_assert(!p.Fixed(), "a fresh slot is not resolved");
  bool r = p.Fixup(base);
  vp_assert(r == (off != 0), "resolving reports whether there was an offset");
  char *got = p;
  if (off) vp_assert(got == base + off, "base plus offset");
  else vp_assert(got == nullptr, "null stays null");
  vp_assert(p.Fixed(), "the slot is resolved");
  vp_assert(i - 8 < 4 || base[i] == before, "only the slot is written");
  vp_assert(!p.Fixup(base), "resolving again does nothing");
  vp_assert((char *)p == got, "resolving again does nothing");
  if (off) {
    vp_assert(&*p == got && p.operator->() == got, "dereference");
    const P32 &c = p;
    vp_assert(&*c == got && c.operator->() == got, "const dereference");
  }
}
VP_HARNESS(assign32) {
  char *base = (char *)vp_buf("image", uint64_t(1) << 32);
  uint64_t at = vp_range("slot", 0, (uint64_t(1) << 32) - 4), to = vp_range("at", 0, (uint64_t(1) << 32) - 1);
  P32 &p = *(P32 *)(base + at);
  vp_assume(int64_t(to - at) == int32_t(to - at) && to != at);
  p = base + to;
  vp_assert((char *)p == base + to, "assigned address reads back");
  p = nullptr;
  vp_assert((char *)p == nullptr, "null reads back");
}

// any history: the slot is in the table at some place
template <class P, class I> static void resolved() {
  char *base = (char *)vp_buf("image", 4096);
  P &p = *(P *)(base + 8);
  Table t;
  size_t j = vp_range("j", 0, uint64_t(1) << 32);
  vp_assume(j < t.n);
  vp_assume(t.entries[j] == (uint64_t)(uintptr_t)&p);
  size_t i = vp_range("byte", 0, 4095);
  char before = base[i];
  auto inv = [&](uint64_t d) { return d <= 8 * j; };
  vp_inv1("not past the entry", inv);
  auto inv2 = [&](uint64_t d) { return d <= j / 4; };
  vp_inv1("not past the entry's group", inv2);
  bool r = p.Fixup(base);
  vp_inv_clear();
  vp_assert(!r, "a slot in the table is not resolved again");
  vp_assert(base[i] == before, "nothing changes");
  vp_assert(t.end() == t.entries + t.n, "the table is unchanged");
}
VP_HARNESS(resolved_before) { resolved<P64, uint64_t>(); }
VP_HARNESS(resolved_before32) { resolved<P32, int32_t>(); }
// any history: the slot is not in the table
template <class P, class I> static void fresh() {
  char *base = (char *)vp_buf("image", 4096);
  P &p = *(P *)(base + 8);
  I off = vp_range("offset", 0, 4095);
  vp_assume(off != 8);
  memcpy(base + 8, &off, sizeof(off));
  Table t;
  auto absent = [&](uint64_t i) { return i % 8 || t.entries[i / 8] != (uint64_t)(uintptr_t)&p; };
  vp_assume_all(t.entries, 8 * t.n, absent);
  size_t j = vp_range("j", 0, uint64_t(1) << 32);
  vp_assume(j < t.n);
  uint64_t entry = t.entries[j];
  bool r = p.Fixup(base);
  vp_assert(r == (off != 0), "resolving reports whether there was an offset");
  char *got = p;
  if (off) vp_assert(got == base + off, "base plus offset");
  else vp_assert(got == nullptr, "null stays null");
  vp_assert(t.end() == t.entries + t.n + 1 && t.entries[t.n] == (uint64_t)(uintptr_t)&p, "the slot is entered into the table");
  vp_assert(t.entries[j] == entry, "earlier entries stay");
}
VP_HARNESS(unresolved) { fresh<P64, uint64_t>(); }
VP_HARNESS(unresolved32) { fresh<P32, int32_t>(); }
