// P08  linked and owned storage
//vp: link8_fresh limit=2 feas_ms=300
//vp: link8_owned limit=2 feas_ms=300
//vp: link8_linked limit=2 feas_ms=300
//vp: link32_fresh limit=2 feas_ms=300
//vp: link32_owned limit=2 feas_ms=300
//vp: link32_linked limit=2 feas_ms=300
#include "vp.h"
#include "datas/allocator_hybrid.hpp"
#include "datas/deleter_hybrid.hpp"
#include <vector>
#include <memory>

typedef std::vector<uint8_t, es::allocator_hybrid<uint8_t>> Bytes;
typedef std::vector<uint32_t, es::allocator_hybrid<uint32_t>> Words;

template <class T> static void alloc() {
  T *buf = (T *)vp_buf("buffer", 64);
  const uint64_t before = vp_live_heap();
  es::allocator_hybrid<T> own;
  vp_assert(own.buffer == nullptr, "owns by default");
  size_t n = vp_range("count", 1, 1 << 20);
  T *p = own.allocate(n);
  vp_assert(p != buf, "fresh memory");
  vp_assert(vp_live_heap() == before + 1, "one block obtained");
  p[0] = T(1), p[n - 1] = T(2);
  vp_assert(own.buffer == nullptr, "still owning");
  own.deallocate(p, n);
  vp_assert(vp_live_heap() == before, "released when given back");
  vp_assert(own.buffer == nullptr, "still owning");

  es::allocator_hybrid<T> linked(buf);
  es::allocator_hybrid<T> copy(linked);
  vp_assert(linked == copy && !(linked != copy) && linked != own && !(linked == own), "allocators are equal when they use the same buffer");
  T *q = copy.allocate(64 / sizeof(T));
  vp_assert(q == buf, "the linked buffer");
  vp_assert(vp_live_heap() == before, "nothing obtained");
  copy.deallocate(q, 64 / sizeof(T));
  vp_assert(!vp_is_freed(buf), "the linked buffer is not freed");
  vp_assert(vp_live_heap() == before, "nothing released");
  vp_assert(linked.buffer == buf, "other allocators stay linked");
  // memory the allocator obtained before it was linked, or after its buffer was given back
  T *r = copy.allocate(n);
  vp_assert(r != buf && vp_live_heap() == before + 1, "fresh memory after the buffer is given back");
  linked.deallocate(r, n);
  vp_assert(vp_live_heap() == before && !vp_is_freed(buf), "released by a linked allocator");
  vp_assert(linked.buffer == buf, "stays linked");
}
VP_HARNESS(alloc8) { alloc<uint8_t>(); }
VP_HARNESS(alloc32) { alloc<uint32_t>(); }
VP_HARNESS(rebind) {
  uint8_t *buf = (uint8_t *)vp_buf("buffer", 64);
  es::allocator_hybrid<uint8_t> linked(buf);
  es::allocator_hybrid<uint32_t> other(linked);
  vp_assert(other.buffer == nullptr, "an allocator of another type owns");
  es::allocator_hybrid<uint16_t> same((uint16_t *)buf);
  vp_assert(linked == same && !(linked != same), "equal over the same buffer");
}

// a container of any size over a buffer, after any earlier state
template <class V> static void link(int earlier, bool byCount, size_t n) {
  typedef typename V::value_type T;
  T *buf = (T *)vp_buf("buffer", n * sizeof(T));
  T *old = (T *)vp_buf("old", 4 * sizeof(T));
  const size_t i = vp_size("i");
  vp_assume(i < n);
  const T at = buf[i];
  auto keep = [&] { return !(i < n) || buf[i] == at; };
  vp_inv0("the contents stay", keep);
  const uint64_t before = vp_live_heap();
  {
    V v;
    if (earlier == 1) v.push_back(T(1));
    if (earlier == 2) es::allocator_hybrid_base::LinkStorage(v, old, old + 4);
    if (byCount) es::allocator_hybrid_base::LinkStorage(v, buf, n);
    else es::allocator_hybrid_base::LinkStorage(v, buf, buf + n);
    vp_assert(vp_live_heap() == before, "earlier memory is released, none obtained");
    vp_assert(v.size() == n, "size");
    vp_assert(v.data() == buf, "not copied");
    vp_assert(v[i] == at, "exposes the contents");
    v[i] = T(at + 1);
    vp_assert(buf[i] == T(at + 1), "writes go to the buffer");
    buf[i] = at;
    vp_assert(v.get_allocator().buffer == buf, "linked");
    V w(std::move(v));
    vp_assert(w.size() == n && w.data() == buf, "moving moves the link");
    if (earlier == 0) es::allocator_hybrid_base::DisposeStorage(w);
    if (earlier == 0) {
      vp_assert(w.size() == 0 && w.get_allocator().buffer == nullptr, "disposed");
      w.push_back(T(75));
      vp_assert(w.size() == 1 && w[0] == T(75) && w.data() != buf, "owns afterwards");
      vp_assert(vp_live_heap() == before + 1, "owns afterwards");
    }
  }
  vp_inv_clear();
  vp_assert(!vp_is_freed(buf) && !vp_is_freed(old), "linked buffers are never freed");
  vp_assert(vp_live_heap() == before, "owned buffers are freed");
  vp_assert(buf[i] == at, "the buffer is as it was");
}
static size_t any() { return vp_range("size", 1, uint64_t(1) << 32); }
VP_HARNESS(link8_fresh) { link<Bytes>(0, false, any()); }
VP_HARNESS(link8_owned) { link<Bytes>(1, true, any()); }
VP_HARNESS(link8_linked) { link<Bytes>(2, false, any()); }
VP_HARNESS(link32_fresh) { link<Words>(0, true, any()); }
VP_HARNESS(link32_owned) { link<Words>(1, false, any()); }
VP_HARNESS(link32_linked) { link<Words>(2, true, any()); }

template <class V> static void none(int earlier) {
  typedef typename V::value_type T;
  T *buf = (T *)vp_buf("buffer", 4);
  T *old = (T *)vp_buf("old", 4 * sizeof(T));
  const uint64_t before = vp_live_heap();
  {
    V v;
    if (earlier == 1) v.push_back(T(1));
    if (earlier == 2) es::allocator_hybrid_base::LinkStorage(v, old, old + 4);
    es::allocator_hybrid_base::LinkStorage(v, buf, size_t(0));
    vp_assert(vp_live_heap() == before, "earlier memory is released, none obtained");
    vp_assert(v.size() == 0 && v.begin() == v.end(), "empty");
  }
  vp_assert(!vp_is_freed(buf) && !vp_is_freed(old), "linked buffers are never freed");
  vp_assert(vp_live_heap() == before, "owned buffers are freed");
}
VP_HARNESS(none_fresh) { none<Bytes>(0); }
VP_HARNESS(none_owned) { none<Words>(1); }
VP_HARNESS(none_linked) { none<Bytes>(2); }

static int destroyed;
struct Probe {
  uint32_t a[3];
  ~Probe() { destroyed++; }
};
VP_HARNESS(deleter) {
  destroyed = 0;
  const uint64_t before = vp_live_heap();
  bool owns = vp_bool("owns");
  Probe *p = new Probe();
  {
    std::unique_ptr<Probe, es::deleter_hybrid> u(p, es::deleter_hybrid(owns));
    vp_assert(destroyed == 0, "not before the pointer goes");
    std::unique_ptr<Probe, es::deleter_hybrid> w(std::move(u));
    vp_assert(destroyed == 0 && w.get() == p, "not when moved");
  }
  vp_assert(destroyed == (owns ? 1 : 0), "destroyed exactly when it owns");
  vp_assert(vp_live_heap() == before + (owns ? 0 : 1), "freed exactly when it owns");
  if (!owns) delete p;
  {
    std::unique_ptr<Probe, es::deleter_hybrid> d(new Probe());
  }
  vp_assert(destroyed == 2 && vp_live_heap() == before, "owns by default");
  const es::deleter_hybrid e(owns);
  e((Probe *)nullptr);
  vp_assert(destroyed == 2, "nothing to destroy");
}
VP_HARNESS(deleter_c) {
  const uint64_t before = vp_live_heap();
  bool owns = vp_bool("owns");
  void *p = malloc(8);
  vp_assume(p != nullptr);
  {
    std::unique_ptr<char, es::deleter_hybrid_c> u((char *)p, es::deleter_hybrid_c(owns));
    std::unique_ptr<char, es::deleter_hybrid_c> w(std::move(u));
    vp_assert(vp_live_heap() == before + 1, "not before the pointer goes");
  }
  vp_assert(vp_live_heap() == before + (owns ? 0 : 1), "freed exactly when it owns");
  if (!owns) free(p);
  void *q = malloc(8);
  vp_assume(q != nullptr);
  {
    std::unique_ptr<char, es::deleter_hybrid_c> d((char *)q);
  }
  vp_assert(vp_live_heap() == before, "owns by default");
}
