// P03  bit-field members
#include "vp.h"
#include "datas/bitfield.hpp"

template <class T> static T swapped(T v) {
  T r = 0;
  for (unsigned i = 0; i < sizeof(T); i++) r = T(r | T(T(T(v >> (8 * i)) & T(0xff)) << (8 * (sizeof(T) - 1 - i))));
  return r;
}
template <class T> static T maskOf(unsigned pos, unsigned width) { return T(T(T(~T(0)) >> (sizeof(T) * 8 - width)) << pos); }

// declared widths, in order; positions are the running sum of the widths before
template <class BF, class M, class T> static void member(T s0, T val, unsigned pos) {
  const unsigned width = M::size, bits = sizeof(T) * 8;
  const T m = maskOf<T>(pos, width);
  BF f;
  f.value = s0;
  vp_assert(f.template Get<M>() == T(T(s0 & m) >> pos), "a member reads its own bits");
  vp_assert(f.value == s0, "reading leaves the storage alone");
  f.template Set<M>(val);
  vp_assert(f.value == T((s0 & T(~m)) | T(T(val << pos) & m)), "storing changes exactly the member's bits");
  vp_assert(f.template Get<M>() == T(val & T(m >> pos)), "a stored value reads back truncated");
  BitMember bm = BF::parent::Get(M::index);
  vp_assert(bm.position == pos && bm.size == width, "declared layout");
  vp_assert(bm.template GetMask<T>() == m, "mask");
  vp_assert(bm.template GetMirrorMask<T>() == maskOf<T>(bits - pos - width, width), "mirrored mask");
  // to the other byte order
  BF o;
  o.value = s0;
  o.SwapEndian(true);
  T raw = swapped(o.value);
  const unsigned mpos = bits - pos - width;
  vp_assert(T(T(raw & maskOf<T>(mpos, width)) >> mpos) == T(T(s0 & m) >> pos), "member seen through the mirrored layout");
  o.SwapEndian(false);
  vp_assert(o.template Get<M>() == T(T(s0 & m) >> pos), "there and back keeps the member");
  // from the other byte order
  BF i;
  i.value = s0;
  i.SwapEndian(false);
  T raw0 = swapped(s0);
  vp_assert(i.template Get<M>() == T(T(raw0 & maskOf<T>(mpos, width)) >> mpos), "member decoded from the mirrored layout");
}

template <class T, class BF, unsigned pos> static void members(T, T) {}
template <class T, class BF, unsigned pos, class M, class... Ms> static void members(T s0, T v) {
  member<BF, M, T>(s0, v, pos);
  members<T, BF, pos + M::size, Ms...>(s0, v);
}
template <class T, class... Ms> static void layout() {
  typedef BitFieldType<T, Ms...> BF;
  T s0 = vp_any<T>("storage");
  T v = vp_any<T>("value");
  members<T, BF, 0, Ms...>(s0, v);
  T claimed = 0;
  unsigned total = 0;
  unsigned widths[] = {unsigned(Ms::size)...};
  for (unsigned w : widths) total += w;
  claimed = maskOf<T>(0, total);
  BF f;
  f.value = s0;
  f.SwapEndian(true);
  f.SwapEndian(false);
  vp_assert(T(f.value & claimed) == T(s0 & claimed), "there and back restores the claimed storage");
  f.value = s0;
  f.SwapEndian(false);
  f.SwapEndian(true);
  T rc = swapped(T(maskOf<T>(sizeof(T) * 8 - total, total)));
  vp_assert(T(f.value & rc) == T(s0 & rc), "back and there restores the claimed storage");
  // FByteswapper uses the type's own conversion
  BF g, h;
  g.value = h.value = s0;
  FByteswapper(g, true);
  h.SwapEndian(true);
  vp_assert(g.value == h.value, "generic swap out");
  g.value = h.value = s0;
  FByteswapper(g);
  h.SwapEndian(false);
  vp_assert(g.value == h.value, "generic swap in");
}
template <size_t i, size_t w> using D = BitMemberDecl<i, w>;

VP_HARNESS(u8_full) { layout<uint8_t, D<0, 3>, D<1, 1>, D<2, 4>>(); }
VP_HARNESS(u8_partial) { layout<uint8_t, D<0, 2>, D<1, 3>>(); }
VP_HARNESS(u16_full) { layout<uint16_t, D<0, 2>, D<1, 5>, D<2, 3>, D<3, 1>, D<4, 2>, D<5, 3>>(); }
VP_HARNESS(u16_wide) { layout<uint16_t, D<0, 1>, D<1, 14>, D<2, 1>>(); }
VP_HARNESS(u32_full) { layout<uint32_t, D<0, 5>, D<1, 11>, D<2, 1>, D<3, 15>>(); }
VP_HARNESS(u32_partial) { layout<uint32_t, D<0, 7>, D<1, 9>, D<2, 12>>(); }
VP_HARNESS(u64_full) { layout<uint64_t, D<0, 31>, D<1, 2>, D<2, 30>, D<3, 1>>(); }
VP_HARNESS(u64_partial) { layout<uint64_t, D<0, 1>, D<1, 40>, D<2, 17>>(); }
VP_HARNESS(u64_two) { layout<uint64_t, D<0, 63>, D<1, 1>>(); }
