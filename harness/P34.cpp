// P34  list views
//vp: * limit=2
#include "vp.h"
#include "uni/list_vector.hpp"

// a list of any size whose element i is some function of i
struct Some : uni::Vector<uint64_t> {
  size_t n;
  size_t Size() const override { return n; }
  const uint64_t At(size_t id) const override { return vp_bij(id); }
};
template <class L> static void iterate(const L &l, size_t n) {
  size_t k = 0;
  for (auto it = l.begin(); it != l.end(); ++it) {
    vp_assert(k < n, "no more elements than the size");
    vp_assert(*it == l.At(k), "the element of that index");
    vp_assert(l[k] == l.At(k), "look-up by index");
    k++;
  }
  vp_assert(k == n, "as many elements as the size");
}
VP_HARNESS(list) {
  Some l;
  l.n = vp_size("size");
  iterate<uni::Vector<uint64_t>>(l, l.n);
}
VP_HARNESS(proxy) {
  Some l;
  l.n = vp_size("size");
  typedef uni::Vector<uint64_t> V;
  uni::VirtualIteratorProxy<V, &V::Size, const uint64_t, &V::At> p(&l);
  size_t k = 0;
  for (auto it = p.begin(); it != p.end(); it++) {
    vp_assert(k < l.n, "no more elements than the size");
    vp_assert(*it == l.At(k), "the element of that index");
    k++;
  }
  vp_assert(k == l.n, "as many elements as the size");
}
VP_HARNESS(post_increment) {
  Some l;
  l.n = vp_size("size");
  typedef Some::iterator_type_const I;
  const size_t a = vp_range("a", 0, uint64_t(1) << 30);
  I it((uni::Vector<uint64_t> *)&l, a);
  I old = it++;
  vp_assert(*old == l.At(a), "the old position");
  vp_assert(*it == l.At(a + 1), "the next position");
  vp_assert(!(old == it) && old != it, "different positions differ");
}
VP_HARNESS(vector_list) {
  const size_t n = vp_size("size");
  const uint32_t *e = (const uint32_t *)vp_buf("elements", n * 4);
  uni::VectorList<uint32_t, uint32_t, uni::Vector> l;
  l.storage.assign(e, e + n);
  vp_assert(l.Size() == n, "size");
  const size_t i = vp_range("i", 0, uint64_t(1) << 40);
  vp_assert(vp_throws([&] { (void)l[i]; }) == (i >= n), "look-up past the end is refused");
  if (i < n)
    vp_assert(l[i] == e[i] && l.At(i) == e[i], "the stored element");
  iterate(l, n);
  iterate<uni::Vector<uint32_t>>(l, n);
}
struct Thing {
  uint64_t v;
};
VP_HARNESS(poly_list) {
  const size_t n = vp_size("size"), i = vp_range("i", 0, uint64_t(1) << 40);
  typedef uni::PolyVectorList<Thing, Thing> L;
  // the elements are pointers of any value; they are only handed out, never followed or freed
  L &l = *new L;
  char *e = (char *)vp_buf("elements", n * 8), *raw[3] = {e, e + n * 8, e + n * 8};
  static_assert(sizeof(l.storage) == sizeof raw, "vector layout");
  memcpy((void *)&l.storage, raw, sizeof raw);
  vp_assert(l.Size() == n, "size");
  if (i < n) {
    uint64_t want;
    memcpy(&want, e + 8 * i, 8);
    auto p = l.At(i);
    vp_assert(uint64_t(p.get()) == want, "the stored object itself");
  }
  vp_assert(vp_throws([&] { (void)l[i]; }) == (i >= n), "look-up past the end is refused");
  size_t k = 0;
  for (auto it = l.begin(); it != l.end(); ++it) {
    vp_assert(k < n, "no more elements than the size");
    uint64_t want;
    memcpy(&want, e + 8 * k, 8);
    vp_assert(uint64_t((*it).get()) == want, "the element of that index");
    k++;
  }
  vp_assert(k == n, "as many elements as the size");
}
