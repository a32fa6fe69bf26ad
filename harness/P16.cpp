// P16  stream positioning helpers
//vp: * limit=2
//vp: skip_writer one_ms=60000 cost=60
#define VP_USE_STREAM
#include "vp.h"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"

// a reader or writer anywhere in a file of any size, with any origin
template <class S> struct Access;
template <> struct Access<BinReaderRef> {
  static BinReaderRef make(VpStream &st) { return BinReaderRef(st.in()); }
  static uint64_t pos(VpStream &st) { return st.gpos(); }
  static void set(VpStream &st, uint64_t p) { st.setg(p); }
};
template <> struct Access<BinWritterRef> {
  static BinWritterRef make(VpStream &st) { return BinWritterRef(st.out()); }
  static uint64_t pos(VpStream &st) { return st.ppos(); }
  static void set(VpStream &st, uint64_t p) { st.setp(p); }
};
template <class S> struct File {
  size_t size, at, origin;
  VpStream st;
  S s;
  File() : size(vp_size("size")), at(vp_range("at", 0, uint64_t(1) << 40)), origin(vp_range("origin", 0, uint64_t(1) << 40)), st("file", size), s(Access<S>::make(st)) {
    vp_assume(at <= size && origin <= size);
    s.SetRelativeOrigin(origin, false);
    Access<S>::set(st, at);
  }
  uint64_t pos() { return Access<S>::pos(st); }
};

template <class S> static void seek_tell() {
  File<S> f;
  vp_assert(f.s.Tell() == f.at - f.origin, "told relative to the origin");
  vp_assert(f.pos() == f.at, "telling does not move");
  const size_t to = vp_range("to", 0, uint64_t(1) << 40);
  vp_assume(f.origin + to <= f.size);
  f.s.Seek(to);
  vp_assert(f.pos() == f.origin + to, "sought relative to the origin");
  vp_assert(f.s.Tell() == to, "tell undoes seek");
  Access<S>::set(f.st, f.at);
  f.s.Seek(f.s.Tell());
  vp_assert(f.pos() == f.at, "seek undoes tell");
  f.s.Seek(0, S::end);
  vp_assert(f.pos() == f.size, "the end of the file");
  Access<S>::set(f.st, f.at);
  const size_t by = vp_range("by", 0, uint64_t(1) << 40);
  vp_assume(f.at + by <= f.size);
  f.s.Seek(by, S::cur);
  vp_assert(f.pos() == f.at + by, "relative to the cursor");
  f.s.Seek(-by, S::cur);
  vp_assert(f.pos() == f.at, "and back");
  vp_assert(!f.st.failed(), "no failure");
  vp_assert(f.st.size() == f.size, "the file keeps its size");
}
template <class S> static void push_pop() {
  File<S> f;
  const size_t told = f.s.Push(), to = vp_range("to", 0, uint64_t(1) << 40);
  vp_assert(told == f.at, "push reports the place in the file");
  vp_assert(f.pos() == f.at, "pushing does not move");
  vp_assume(f.origin + to <= f.size);
  f.s.Seek(to);
  f.s.Pop();
  vp_assert(f.pos() == f.at, "popped");
  f.s.SetRelativeOrigin(to);
  vp_assert(f.pos() == to && f.s.Tell() == 0, "a new origin is where reading goes on");
  f.s.Pop();
  vp_assert(f.pos() == f.at, "popped under another origin");
  vp_assert(f.s.Tell() == f.at - to, "told relative to the new origin");
  f.s.SetRelativeOrigin(f.origin, false);
  vp_assert(f.pos() == f.at, "setting the origin without seeking does not move");
  vp_assert(f.s.Tell() == f.at - f.origin, "the old origin again");
  f.s.ResetRelativeOrigin(false);
  vp_assert(f.pos() == f.at && f.s.Tell() == f.at, "no origin, no move");
  f.s.ResetRelativeOrigin();
  vp_assert(f.pos() == 0 && f.s.Tell() == 0, "back to the start");
  vp_assert(!f.st.failed(), "no failure");
}
template <class S> static void size() {
  File<S> f;
  vp_assert(f.s.GetSize() == f.size - f.origin, "size as seen from the origin");
  vp_assert(f.pos() == f.at, "asking for the size does not move");
  vp_assert(!f.st.failed() && f.st.size() == f.size, "no failure, no growth");
}
VP_HARNESS(seek_tell_reader) { seek_tell<BinReaderRef>(); }
VP_HARNESS(seek_tell_writer) { seek_tell<BinWritterRef>(); }
VP_HARNESS(push_pop_reader) { push_pop<BinReaderRef>(); }
VP_HARNESS(push_pop_writer) { push_pop<BinWritterRef>(); }
VP_HARNESS(size_reader) { size<BinReaderRef>(); }
VP_HARNESS(size_writer) { size<BinWritterRef>(); }

VP_HARNESS(skip_reader) {
  File<BinReaderRef> f;
  const int by = vp_i32("by");
  vp_assume(int64_t(f.at) + by >= 0);
  f.s.Skip(by);
  vp_assert(f.pos() == f.at + by, "moved by so many bytes");
  Access<BinReaderRef>::set(f.st, f.at);
  f.s.Skip<uint64_t>();
  vp_assert(f.pos() == f.at + 8, "moved by the size of the type");
  vp_assert(!f.st.failed(), "no failure");
}
VP_HARNESS(skip_back_writer) {
  File<BinWritterRef> f;
  const int by = vp_range("by", 0, INT32_MAX);
  vp_assume(size_t(by) <= f.at);
  f.s.Skip(-by);
  vp_assert(f.pos() == f.at - by, "moved back by so many bytes");
  vp_assert(f.st.size() == f.size && !f.st.failed(), "nothing written");
}
// forward: by bytes of zeros. `d` places the observed byte relative to the cursor.
static void skip_forward(bool before) {
  File<BinWritterRef> f;
  const int by = vp_range("by", 0, INT32_MAX);
  const size_t pos = f.at, d = vp_range("d", 0, uint64_t(1) << 40);
  if (before)
    vp_assume(d >= 1 && d <= pos);
  const size_t other = before ? pos - d : pos + d;
  const uint8_t old = f.st.at(other);
  auto moved = [&](uint64_t t) { return f.st.ppos() == pos + 32 * t; };
  auto zeros = [&](uint64_t t) { return f.st.at(other) == (!before && d < 32 * t ? 0 : old); };
  auto grown = [&](uint64_t t) { return f.st.size() == (pos + 32 * t > f.size ? pos + 32 * t : f.size); };
  vp_inv1("moved so far", moved);
  vp_inv1("zeros so far", zeros);
  vp_inv1("size so far", grown);
  f.s.Skip(by);
  vp_inv_clear();
  vp_assert(f.pos() == pos + by, "moved by so many bytes");
  vp_assert(f.st.at(other) == (!before && d < size_t(by) ? 0 : old), "the skipped bytes are zero, the others stay");
  vp_assert(f.st.size() == (pos + by > f.size ? pos + by : f.size), "the file grows no more than needed");
}
VP_HARNESS(skip_writer) { skip_forward(false); }
VP_HARNESS(skip_writer_before) { skip_forward(true); }
// alignments are powers of two
VP_HARNESS(padding_reader) {
  File<BinReaderRef> f;
  const int align = vp_range("align", 1, 1 << 30);
  vp_assume((align & (align - 1)) == 0 && f.at >= f.origin);
  const size_t rel = f.at - f.origin;
  f.s.ApplyPadding(align);
  const size_t now = f.pos() - f.origin;
  vp_assert((now & (align - 1)) == 0, "a multiple of the alignment");
  vp_assert(now >= rel && now - rel < size_t(align), "the next one");
  vp_assert(f.s.Tell() == now, "told so");
  vp_assert(!f.st.failed() && f.st.size() == f.size, "nothing else");
}
// The same code over a stream of which only the contract of Skip is used: writing and moving so many bytes.
// What Skip of the writer does is the subject of skip_writer.
struct Spy : BinSteamEndian {
  typedef std::ostream StreamType;
  typedef std::ios_base::seekdir seekdir;
  static const auto beg = std::ios_base::beg;
  size_t at = 0;
  mutable size_t moved = 0, seeks = 0;
  mutable int calls = 0;
  size_t Tell() const { return at + moved; }
  void Seek(size_t, seekdir = beg) const { seeks++; }
  void Skip(int n) const {
    calls++;
    moved += n;
  }
};
struct SpyStream : BinStreamNavi<Spy> {};
VP_HARNESS(padding_writer) {
  SpyStream s;
  const size_t at = vp_range("at", 0, uint64_t(1) << 40), origin = vp_range("origin", 0, uint64_t(1) << 40);
  const int align = vp_range("align", 1, 1 << 30);
  vp_assume((align & (align - 1)) == 0 && at >= origin);
  s.at = at;
  s.SetRelativeOrigin(origin, false);
  s.ApplyPadding(align);
  vp_assert(((at - origin + s.moved) & (align - 1)) == 0, "a multiple of the alignment");
  vp_assert(s.moved < size_t(align), "the next one");
  vp_assert(s.calls == (s.moved != 0), "an aligned cursor stays");
  vp_assert(!s.seeks, "padding is skipped, not sought over");
}
VP_HARNESS(padding_default) {
  File<BinReaderRef> f;
  vp_assume(f.at >= f.origin);
  f.s.ApplyPadding();
  vp_assert((f.pos() - f.origin) % 16 == 0 && f.pos() >= f.at && f.pos() - f.at < 16, "sixteen unless told otherwise");
}
