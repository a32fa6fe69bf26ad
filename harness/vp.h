// Specification hooks used by the harnesses in this folder.
//
// The same harness text is compiled twice:
//   * with -DVP_ENGINE by clang to LLVM IR, read by /verif/engine, where the vp_* hooks are contracts
//     interpreted by the verification-condition generator (inputs are arbitrary, loops unbounded);
//   * natively by the compiler the project uses, where the hooks read a replay file or random values, so
//     a counterexample of the verifier can be run against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#ifdef VP_USE_STREAM
#include <istream>
#include <ostream>
#endif

extern "C" {
uint8_t vp_u8(const char *name);
uint16_t vp_u16(const char *name);
uint32_t vp_u32(const char *name);
uint64_t vp_u64(const char *name);
uint64_t vp_range(const char *name, uint64_t lo, uint64_t hi);  // symbolic, lo <= r <= hi
uint64_t vp_choose(const char *name, uint64_t lo, uint64_t hi); // case split
float vp_real(const char *name);
void *vp_buf(const char *name, size_t n); // fresh block of exactly n bytes
void vp_assume(bool c);
void vp_assert(bool c, const char *name);
void vp_cover(const char *name);
bool vp_is_freed(const void *p);
uint64_t vp_live_heap();
bool vp_exists_byte(const void *p, size_t n, uint8_t c);   // some i < n: p[i] == c
bool vp_all_eq(const void *p, const void *q, size_t n);    // all i < n: p[i] == q[i]
void vp_fold_hook(const char *id, void *state, uint64_t words, uint64_t wsz, uint64_t n,
                  void (*)(void *, void *, uint64_t), void *ctx);
void vp_fold_at_hook(const char *id, void *out, uint64_t idx, bool lemma);
void vp_inv_hook(const char *name, bool (*)(void *, uint64_t, uint64_t), void *ctx, uint64_t holes);
void vp_inv_clear();
void vp_touch(const void *p); // assumptions made with vp_assume_all and by memcmp & co. are used at this byte
void vp_all_hook(const void *p, uint64_t n, bool (*)(void *, uint64_t), void *ctx);
bool vp_throws_hook(void (*)(void *), void *);
uint64_t vp_bij(uint64_t x);     // an arbitrary bijection
uint64_t vp_bij_inv(uint64_t x); // its inverse
void *vp_stream_hook(const char *name, size_t size);
uint64_t vp_stream_size(void *s);
uint64_t vp_stream_gpos(void *s);
uint64_t vp_stream_ppos(void *s);
bool vp_stream_failed(void *s);
uint8_t vp_stream_at(void *s, uint64_t i);
void vp_stream_setg(void *s, uint64_t p);
void vp_stream_setp(void *s, uint64_t p);
void *vp_stream_ios(void *s);
}

inline int8_t vp_i8(const char *n) { return int8_t(vp_u8(n)); }
inline int16_t vp_i16(const char *n) { return int16_t(vp_u16(n)); }
inline int32_t vp_i32(const char *n) { return int32_t(vp_u32(n)); }
inline int64_t vp_i64(const char *n) { return int64_t(vp_u64(n)); }
inline bool vp_bool(const char *n) { return vp_u8(n) & 1; }

// An arbitrary length.  Native random search keeps it small, the verifier does not.
inline size_t vp_size(const char *n) { return vp_range(n, 0, uint64_t(1) << 40); }

template <class T> inline T vp_any(const char *name) {
  T t;
  void *p = vp_buf(name, sizeof(T));
  memcpy((void *)&t, p, sizeof(T));
  return t;
}

// spec recursion:  s(0) = init, s(i+1) = step(s(i), i); returns s(n)
template <class S> struct vp_word { typedef S type; };
template <class W, class S, class F> S vp_foldw(const char *id, S init, uint64_t n, F &step) {
  struct T {
    static void go(void *c, void *s, uint64_t i) { (*(F *)c)(*(S *)s, i); }
  };
  S s = init;
  vp_fold_hook(id, &s, sizeof(S) / sizeof(W), sizeof(W), n, &T::go, (void *)&step);
  return s;
}

template <class S> S vp_fold_at(const char *id, uint64_t i) {
  S s;
  vp_fold_at_hook(id, &s, i, false);
  return s;
}

// candidate loop invariants; p, q range over the loop's own counters.  They are only used where proved.
template <class F> void vp_inv0(const char *name, F &f) {
  struct T {
    static bool go(void *c, uint64_t, uint64_t) { return (*(F *)c)(); }
  };
  vp_inv_hook(name, &T::go, (void *)&f, 0);
}
template <class F> void vp_inv1(const char *name, F &f) {
  struct T {
    static bool go(void *c, uint64_t p, uint64_t) { return (*(F *)c)(p); }
  };
  vp_inv_hook(name, &T::go, (void *)&f, 1);
}
template <class F> void vp_inv2(const char *name, F &f) {
  struct T {
    static bool go(void *c, uint64_t p, uint64_t q) { return (*(F *)c)(p, q); }
  };
  vp_inv_hook(name, &T::go, (void *)&f, 2);
}

// assume f(i) for every i < n, where f speaks about byte i of p.  (The verifier uses the assumption at the
// indices of p the code reads.)
template <class F> void vp_assume_all(const void *p, uint64_t n, F &f) {
  struct T {
    static bool go(void *c, uint64_t i) { return (*(F *)c)(i); }
  };
  vp_all_hook(p, n, &T::go, (void *)&f);
}

// does f() throw?
template <class F> bool vp_throws(F &&f) {
  struct T {
    static void go(void *c) { (*(F *)c)(); }
  };
  return vp_throws_hook(&T::go, (void *)&f);
}

#ifdef VP_USE_STREAM
// A stream over a byte file with arbitrary or given contents.
struct VpStream {
  void *h;
  VpStream(const char *name, size_t size) : h(vp_stream_hook(name, size)) {}
  std::iostream &io() { return *(std::iostream *)vp_stream_ios(h); }
  std::istream &in() { return io(); }
  std::ostream &out() { return io(); }
  uint64_t size() { return vp_stream_size(h); }
  uint64_t gpos() { return vp_stream_gpos(h); }
  uint64_t ppos() { return vp_stream_ppos(h); }
  bool failed() { return vp_stream_failed(h); }
  uint8_t at(uint64_t i) { return vp_stream_at(h, i); }
  void setg(uint64_t p) { vp_stream_setg(h, p); }
  void setp(uint64_t p) { vp_stream_setp(h, p); }
};

#endif

#define VP_HARNESS(name) extern "C" void H_##name()
