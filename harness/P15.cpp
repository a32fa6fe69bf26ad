// P15  what is written through the binary writer is read back identically
//vp: * limit=2 frame=1 one_ms=20000
#define VP_USE_STREAM
#include "vp.h"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/vectors.hpp"

// a file of any size, a cursor anywhere in it, one observed byte outside of what is written
struct File {
  size_t size, at;
  VpStream st;
  bool swap;
  size_t other;
  uint8_t old;
  File() : size(vp_size("size")), at(vp_range("at", 0, uint64_t(1) << 40)), st("file", size), swap(vp_choose("swap", 0, 1)) {
    vp_assume(at <= size);
    other = vp_range("other", 0, uint64_t(1) << 40);
    old = st.at(other);
    st.setp(at);
  }
  BinWritterRef writer() {
    BinWritterRef w(st.out());
    w.SwapEndian(swap);
    return w;
  }
  BinReaderRef reader() {
    BinReaderRef r(st.in());
    r.SwapEndian(swap);
    st.setg(at);
    return r;
  }
  void wrote(size_t n) {
    vp_assert(st.ppos() == at + n, "writes so many bytes");
    vp_assert(st.size() == (at + n > size ? at + n : size), "the file grows no more than needed");
    if (other < at || other >= at + n)
      vp_assert(st.at(other) == old, "nothing else is written");
    vp_assert(!st.failed(), "writing does not fail");
  }
  void consumed(size_t n) {
    vp_assert(st.gpos() == at + n, "reading consumes exactly what was written");
    vp_assert(!st.failed(), "reading does not fail");
  }
};

template <class T> static void any(T &t, const char *n) { memcpy((void *)&t, vp_buf(n, sizeof(T)), sizeof(T)); }
// E: what is swapped as a unit
template <class E, class T> static void single() {
  File f;
  T value, back;
  any(value, "value");
  any(back, "garbage");
  uint8_t was[sizeof(T)];
  memcpy(was, &value, sizeof(T));
  f.writer().Write(value);
  vp_assert(memcmp(was, &value, sizeof(T)) == 0, "the caller's object is unchanged");
  f.wrote(sizeof(T));
  for (size_t i = 0; i < sizeof(T); i++)
    vp_assert(f.st.at(f.at + i) == was[f.swap ? i / sizeof(E) * sizeof(E) + sizeof(E) - 1 - i % sizeof(E) : i], "the bytes of the file");
  f.reader().Read(back);
  f.consumed(sizeof(T));
  vp_assert(memcmp(was, &back, sizeof(T)) == 0, "read back");
}
template <class T> static void scalar() { single<T, T>(); }
VP_HARNESS(bytes) { vp_choose("signed", 0, 1) ? scalar<char>() : scalar<uint8_t>(); }
VP_HARNESS(shorts) { vp_choose("signed", 0, 1) ? scalar<int16_t>() : scalar<uint16_t>(); }
VP_HARNESS(ints) { vp_choose("signed", 0, 1) ? scalar<int32_t>() : scalar<uint32_t>(); }
VP_HARNESS(longs) { vp_choose("signed", 0, 1) ? scalar<int64_t>() : scalar<uint64_t>(); }
VP_HARNESS(floats) { vp_choose("double", 0, 1) ? scalar<double>() : scalar<float>(); }
enum class Enum : uint16_t { a, b };
VP_HARNESS(enums) { scalar<Enum>(); }
VP_HARNESS(vectors) {
  switch (vp_choose("kind", 0, 4)) {
  case 0: return single<float, Vector2>();
  case 1: return single<float, Vector>();
  case 2: return single<float, Vector4>();
  case 3: return single<int16_t, SVector4>();
  case 4: return single<uint8_t, UCVector4>();
  }
}
VP_HARNESS(arrays) {
  switch (vp_choose("kind", 0, 4)) {
  case 0: return single<char, char[5]>();
  case 1: return single<uint16_t, uint16_t[5]>();
  case 2: return single<uint32_t, int32_t[3]>();
  case 3: return single<uint64_t, uint64_t[2]>();
  case 4: return single<float, Vector[2]>();
  }
}
// a class which knows how to be read and written
struct Own {
  uint8_t a;
  uint32_t b;
  void Write(BinWritterRef w) const {
    w.Write(b);
    w.Write(a);
  }
  void Read(BinReaderRef r) {
    r.Read(b);
    r.Read(a);
  }
};
VP_HARNESS(classes) {
  File f;
  Own v{vp_u8("a"), vp_u32("b")}, w{vp_u8("garbage"), vp_u32("garbage")};
  const Own was = v;
  f.writer().Write(v);
  f.wrote(5);
  vp_assert(v.a == was.a && v.b == was.b, "the caller's object is unchanged");
  for (int i = 0; i < 4; i++)
    vp_assert(f.st.at(f.at + i) == uint8_t(v.b >> 8 * (f.swap ? 3 - i : i)), "by its own Write");
  vp_assert(f.st.at(f.at + 4) == v.a, "by its own Write");
  f.reader().Read(w);
  f.consumed(5);
  vp_assert(v.a == w.a && v.b == w.b, "read back");
}

// A container of any length: the operations the reader and the writer use, as the standard defines them.
template <class T> struct Box {
  typedef T value_type;
  T *p;
  size_t n, cap;
  Box(const char *name, size_t cap_) : p((T *)vp_buf(name, cap_ * sizeof(T))), n(0), cap(cap_) {}
  size_t size() const { return n; }
  const T *data() const { return p; }
  T &operator[](size_t i) { return p[i]; }
  T *begin() { return p; }
  T *end() { return p + n; }
  const T *begin() const { return p; }
  const T *end() const { return p + n; }
  void resize(size_t s) {
    vp_assert(s <= cap, "resized to what was written");
    n = s;
  }
};
template <class T> static uint8_t byteOf(const T &t, size_t i) { return ((const uint8_t *)&t)[i]; }

// How elements lie in the file is said once (`placedAt`); the writer is shown to produce it and the reader to
// give back what it describes, each for any number of elements.
enum How { Plain, Counted, Lambda };
template <class C> static size_t maxCount() {
  return sizeof(C) == 1 ? 255 : sizeof(C) == 2 ? 65535 : sizeof(C) == 4 ? 0xffffffffu : uint64_t(1) << 32;
}
template <class T, class C, How how> struct Layout {
  static constexpr size_t W = sizeof(T), head = how == Plain ? 0 : sizeof(C);
  File &f;
  uint8_t lead(size_t n, size_t i) const { return uint8_t(n >> 8 * (f.swap ? head - 1 - i : i)); }
  size_t begin() const { return f.at + head; }
  size_t slot(size_t k) const { return begin() + k * W; }
  size_t fileByte(size_t i) const { return f.swap && W > 1 ? W - 1 - i : i; } // which byte of the element
};
template <class T, class C, How how> static void put() {
  File f;
  typedef Layout<T, C, how> L;
  const L l{f};
  constexpr size_t W = L::W, head = L::head;
  const size_t n = vp_range("n", 0, maxCount<C>()), k = vp_range("k", 0, uint64_t(1) << 33), slot = l.slot(k);
  vp_assume(k < n);
  Box<T> a("a", n);
  a.n = n;
  T was;
  uint8_t garbage[W];
  memcpy((void *)&was, &a.p[k], W);
  for (size_t i = 0; i < W; i++)
    garbage[i] = f.st.at(slot + i);
  // the observed byte lies before or behind what is written
  const bool before = vp_choose("before", 0, 1);
  const size_t away = vp_range("away", 0, uint64_t(1) << 40);
  if (before) vp_assume(away >= 1 && away <= f.at);
  f.other = before ? f.at - away : l.slot(n) + away;
  f.old = f.st.at(f.other);
  auto placed = [&](uint64_t t) { return f.st.ppos() == l.slot(t); };
  auto elem = [&](uint64_t t) {
    bool r = true;
    for (size_t i = 0; i < W; i++)
      r &= f.st.at(slot + i) == (k < t ? byteOf(was, l.fileByte(i)) : garbage[i]);
    return r;
  };
  auto rest = [&] { return f.st.at(f.other) == f.old; };
  auto grown = [&](uint64_t t) { return f.st.size() == (l.slot(t) > f.size ? l.slot(t) : f.size); };
  auto fine = [&] { return !f.st.failed(); };
  auto count = [&] {
    bool r = true;
    for (size_t i = 0; i < head; i++)
      r &= f.st.at(f.at + i) == l.lead(n, i);
    return r;
  };
  if (head) vp_inv0("count", count);
  vp_inv1("placed", placed);
  vp_inv1("element", elem);
  vp_inv0("rest", rest);
  vp_inv1("grown", grown);
  vp_inv0("fine", fine);
  if (how == Plain) f.writer().WriteContainer(a);
  if (how == Counted) f.writer().template WriteContainerWCount<C>(a);
  if (how == Lambda) f.writer().template WriteContainerLambda<C>(a, [](const BinWritterRef &w, const T &v) { w.Write(v); });
  vp_inv_clear();
  f.wrote(head + n * W);
  vp_assert(memcmp(&was, &a.p[k], W) == 0, "the caller's elements are unchanged");
  for (size_t i = 0; i < W; i++)
    vp_assert(f.st.at(slot + i) == byteOf(was, l.fileByte(i)), "the bytes of the file");
  for (size_t i = 0; i < head; i++)
    vp_assert(f.st.at(f.at + i) == l.lead(n, i), "the count");
}
template <class T, class C, How how> static void get() {
  File f;
  typedef Layout<T, C, how> L;
  const L l{f};
  constexpr size_t W = L::W, head = L::head;
  size_t n = 0;
  if (how == Plain)
    n = vp_range("n", 0, maxCount<C>());
  else {
    vp_assume(f.at + head <= f.size);
    for (size_t i = 0; i < head; i++)
      n |= size_t(f.st.at(f.at + i)) << 8 * (f.swap ? head - 1 - i : i);
    vp_assume(n <= maxCount<C>());
  }
  const size_t k = vp_range("k", 0, uint64_t(1) << 33), slot = l.slot(k);
  vp_assume(k < n && l.slot(n) <= f.size);
  Box<T> b("b", n);
  b.n = vp_range("bn", 0, uint64_t(1) << 33);
  uint8_t want[W], before[W];
  for (size_t i = 0; i < W; i++) {
    want[l.fileByte(i)] = f.st.at(slot + i);
    before[i] = byteOf(b.p[k], i);
  }
  // swapped in place once all is read
  auto got = [&](uint64_t t) {
    bool r = true;
    for (size_t i = 0; i < W; i++)
      r &= byteOf(b.p[k], i) == want[k < t ? i : l.fileByte(i)];
    return r;
  };
  // or one by one
  auto read = [&](uint64_t t) {
    bool r = true;
    for (size_t i = 0; i < W; i++)
      r &= byteOf(b.p[k], i) == (k < t ? want[i] : before[i]);
    return r;
  };
  auto at = [&](uint64_t t) { return f.st.gpos() == l.slot(t); };
  auto fine = [&] { return !f.st.failed(); };
  if (how == Lambda) {
    vp_inv1("read so far", read);
    vp_inv1("at", at);
  } else {
    vp_inv1("swapped so far", got);
  }
  vp_inv0("fine", fine);
  if (how == Plain) f.reader().ReadContainer(b, n);
  if (how == Counted) f.reader().template ReadContainer<C>(b);
  if (how == Lambda) f.reader().template ReadContainerLambda<C>(b, [](const BinReaderRef &r, T &v) { r.Read(v); });
  vp_inv_clear();
  f.consumed(head + n * W);
  vp_assert(b.n == n, "as many elements");
  for (size_t i = 0; i < W; i++)
    vp_assert(byteOf(b.p[k], i) == want[i], "read back");
}
VP_HARNESS(put_plain_bytes) { put<char, uint32_t, Plain>(); }
VP_HARNESS(get_plain_bytes) { get<char, uint32_t, Plain>(); }
VP_HARNESS(put_plain_shorts) { put<uint16_t, uint32_t, Plain>(); }
VP_HARNESS(get_plain_shorts) { get<uint16_t, uint32_t, Plain>(); }
VP_HARNESS(put_plain_longs) { put<uint64_t, uint32_t, Plain>(); }
VP_HARNESS(get_plain_longs) { get<uint64_t, uint32_t, Plain>(); }
VP_HARNESS(put_counted8) { put<uint32_t, uint8_t, Counted>(); }
VP_HARNESS(get_counted8) { get<uint32_t, uint8_t, Counted>(); }
VP_HARNESS(put_counted16) { put<uint32_t, uint16_t, Counted>(); }
VP_HARNESS(get_counted16) { get<uint32_t, uint16_t, Counted>(); }
VP_HARNESS(put_counted32) { put<uint16_t, uint32_t, Counted>(); }
VP_HARNESS(get_counted32) { get<uint16_t, uint32_t, Counted>(); }
VP_HARNESS(put_counted64) { put<uint32_t, uint64_t, Counted>(); }
VP_HARNESS(get_counted64) { get<uint32_t, uint64_t, Counted>(); }
VP_HARNESS(put_lambda_ints) { put<uint32_t, uint32_t, Lambda>(); }
VP_HARNESS(get_lambda_ints) { get<uint32_t, uint32_t, Lambda>(); }
VP_HARNESS(put_lambda_bytes) { put<uint8_t, uint16_t, Lambda>(); }
VP_HARNESS(get_lambda_bytes) { get<uint8_t, uint16_t, Lambda>(); }
// no elements at all (`k < n` above)
VP_HARNESS(empty) {
  File f;
  Box<uint32_t> a("a", 0), b("b", 0);
  b.n = vp_range("bn", 0, uint64_t(1) << 33);
  f.writer().WriteContainer(a);
  f.writer().WriteContainerWCount(a);
  f.writer().WriteContainerLambda(a, [](const BinWritterRef &w, uint32_t v) { w.Write(v); });
  f.wrote(8);
  f.reader().ReadContainer(b, 0);
  vp_assert(f.st.gpos() == f.at && b.n == 0, "nothing is read");
  b.n = 3;
  BinReaderRef r = f.reader();
  r.ReadContainer(b);
  vp_assert(f.st.gpos() == f.at + 4 && b.n == 0, "the count is read");
  b.n = 3;
  r.ReadContainerLambda(b, [](const BinReaderRef &r, uint32_t &v) { r.Read(v); });
  f.consumed(8);
  vp_assert(b.n == 0, "no elements");
}

// Text: the characters, then one zero.
template <class C> struct View;
template <> struct View<char> { typedef es::string_view type; };
template <> struct View<wchar_t> { typedef es::wstring_view type; };
template <class C> static void put_text() {
  File f;
  constexpr size_t W = sizeof(C);
  const size_t n = vp_range("n", 0, uint64_t(1) << 32), k = vp_range("k", 0, uint64_t(1) << 33);
  C *text = (C *)vp_buf("text", n * W);
  auto slot = [&](size_t i) { return f.at + i * W; };
  auto fileByte = [&](size_t i) { return f.swap && W > 1 ? W - 1 - i : i; };
  const bool before = vp_choose("before", 0, 1), empty = vp_choose("empty", 0, 1);
  const size_t away = vp_range("away", 0, uint64_t(1) << 40);
  if (before) vp_assume(away >= 1 && away <= f.at);
  f.other = before ? f.at - away : slot(n + 1) + away;
  f.old = f.st.at(f.other);
  C was = 0;
  uint8_t garbage[W];
  if (empty)
    vp_assume(n == 0);
  else {
    vp_assume(k < n);
    memcpy((void *)&was, &text[k], W);
    for (size_t i = 0; i < W; i++) garbage[i] = f.st.at(slot(k) + i);
  }
  auto placed = [&](uint64_t t) { return f.st.ppos() == slot(t); };
  auto elem = [&](uint64_t t) {
    bool r = true;
    for (size_t i = 0; i < W; i++)
      r &= f.st.at(slot(k) + i) == (k < t ? byteOf(was, fileByte(i)) : garbage[i]);
    return r;
  };
  auto rest = [&] { return f.st.at(f.other) == f.old; };
  auto grown = [&](uint64_t t) { return f.st.size() == (slot(t) > f.size ? slot(t) : f.size); };
  auto fine = [&] { return !f.st.failed(); };
  vp_inv1("placed", placed);
  if (!empty) vp_inv1("element", elem);
  vp_inv0("rest", rest);
  vp_inv1("grown", grown);
  vp_inv0("fine", fine);
  f.writer().WriteT(typename View<C>::type(text, n));
  vp_inv_clear();
  f.wrote((n + 1) * W);
  for (size_t i = 0; i < W; i++) {
    if (!empty) vp_assert(f.st.at(slot(k) + i) == byteOf(was, fileByte(i)), "the bytes of the file");
    vp_assert(f.st.at(slot(n) + i) == 0, "the terminator");
  }
  if (!empty) vp_assert(text[k] == was, "the caller's text is unchanged");
}
VP_HARNESS(put_text) { put_text<char>(); }
VP_HARNESS(put_wide_text) { put_text<wchar_t>(); }
template <class C> struct Text {
  typedef C value_type;
  C *p;
  size_t n, cap;
  void push_back(C c) {
    vp_assert(n < cap, "no more characters than lie before the first zero");
    p[n++] = c;
  }
};
template <class C> static void get_text() {
  File f;
  constexpr size_t W = sizeof(C);
  // some zero: the text ends there or before
  const size_t zero = vp_range("zero", 0, uint64_t(1) << 32), k = vp_range("k", 0, uint64_t(1) << 33);
  auto slot = [&](size_t i) { return f.at + i * W; };
  auto fileByte = [&](size_t i) { return f.swap && W > 1 ? W - 1 - i : i; };
  vp_assume(slot(zero + 1) <= f.size && k < zero);
  for (size_t i = 0; i < W; i++) vp_assume(f.st.at(slot(zero) + i) == 0);
  Text<C> s{(C *)vp_buf("s", zero * W), 0, zero};
  C want, before;
  memcpy((void *)&before, &s.p[k], W);
  {
    uint8_t b[W];
    for (size_t i = 0; i < W; i++) b[fileByte(i)] = f.st.at(slot(k) + i);
    memcpy((void *)&want, b, W);
  }
  auto count = [&](uint64_t t) { return s.n == t; };
  auto limit = [&](uint64_t t) { return t <= zero; };
  auto at = [&](uint64_t t) { return f.st.gpos() == slot(t); };
  auto got = [&](uint64_t t) { return s.p[k] == (k < t ? want : before); };
  auto text = [&](uint64_t t) { return !(k < t) || want != 0; };
  auto fine = [&] { return !f.st.failed() && s.cap == zero; };
  vp_inv1("count", count);
  vp_inv1("limit", limit);
  vp_inv1("at", at);
  vp_inv1("got", got);
  vp_inv1("text", text);
  vp_inv0("fine", fine);
  f.reader().ReadString(s);
  vp_inv_clear();
  vp_assert(s.n <= zero, "up to a zero");
  f.consumed((s.n + 1) * W);
  for (size_t i = 0; i < W; i++) vp_assert(f.st.at(slot(s.n) + i) == 0, "the character behind the text is zero");
  if (k < s.n) {
    vp_assert(want != 0, "the first one");
    vp_assert(s.p[k] == want, "the characters of the file");
  }
}
VP_HARNESS(get_text) { get_text<char>(); }
VP_HARNESS(get_wide_text) { get_text<wchar_t>(); }
VP_HARNESS(get_empty_text) {
  File f;
  vp_assume(f.at + 4 <= f.size);
  for (int i = 0; i < 4; i++) vp_assume(f.st.at(f.at + i) == 0);
  if (vp_choose("wide", 0, 1)) {
    Text<wchar_t> s{nullptr, 0, 0};
    f.reader().ReadString(s);
    f.consumed(4);
  } else {
    Text<char> s{nullptr, 0, 0};
    f.reader().ReadString(s);
    f.consumed(1);
  }
}
