// Native runtime of the harness hooks: replay of a counterexample, or a random search.
#define VP_USE_STREAM
#include "vp.h"
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" int __asan_address_is_poisoned(void const volatile *addr);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                                         void (*)(const volatile void *));

namespace {
struct Skip {};
bool replay = false;
std::map<std::string, uint64_t> ru;
std::map<std::string, std::string> rb;
std::map<std::string, int> cnt;
std::vector<std::string> log_;
char logbuf[1 << 20];
size_t loglen;
uint64_t rs = 88172645463325252ull;
std::set<std::string> covers;
std::string curname;
const char *outpath = nullptr;
const char *failname = nullptr;
bool in_run = false;
long live = 0;

uint64_t rnd() {
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1Dull;
}

uint64_t biased(int w) {
  uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  switch (rnd() % 8) {
  case 0: return rnd() % 5 & m;
  case 1: return (0 - rnd() % 5) & m;
  case 2: return (1ull << (rnd() % w)) & m;
  case 3: return ((1ull << (rnd() % w)) - 1 + rnd() % 3 - 1) & m;
  case 4: return ~(1ull << (rnd() % w)) & m;
  case 5: return rnd() & rnd() & m;
  default: return rnd() & (m >> (rnd() % w));
  }
}

void lg(const char *fmt, const char *n, uint64_t v) {
  if (loglen + 400 < sizeof(logbuf))
    loglen += snprintf(logbuf + loglen, 300, fmt, n, (unsigned long long)v);
}
std::string key(const char *n) {
  int k = cnt[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
void dump(const char *what) {
  if (!in_run) return;
  in_run = false;
  FILE *f = outpath ? fopen(outpath, "w") : stdout;
  if (f) {
    fprintf(f, "# harness %s: %s\n", curname.c_str(), what);
    fwrite(logbuf, 1, loglen, f);
    if (f != stdout) fclose(f);
  }
  printf("\nVPFAIL %s\n", what);
  fflush(stdout);
}
void death() { dump("memory error or crash (address sanitizer)"); }
void onalarm(int) {
  dump("does not terminate");
  _exit(3);
}
void onabrt(int) {
  dump("abort or uncaught exception");
  _exit(3);
}
void mh(const volatile void *, size_t) { live++; }
void fh(const volatile void *p) { if (p) live--; }
uint64_t in(const char *n, int w) {
  std::string k = key(n);
  uint64_t v;
  if (replay) {
    auto it = ru.find(k);
    v = it == ru.end() ? 0 : it->second;
  } else
    v = biased(w);
  if (w < 64) v &= (1ull << w) - 1;
  lg("u %s %llx\n", k.c_str(), v);
  return v;
}
std::vector<void *> blocks;
struct NStream {
  std::stringstream ss;
  uint64_t size0;
};
std::vector<NStream *> streams;
} // namespace

extern "C" {
uint8_t vp_u8(const char *n) { return in(n, 8); }
uint16_t vp_u16(const char *n) { return in(n, 16); }
uint32_t vp_u32(const char *n) { return in(n, 32); }
uint64_t vp_u64(const char *n) { return in(n, 64); }
uint64_t vp_range(const char *n, uint64_t lo, uint64_t hi) {
  std::string k = key(n);
  uint64_t v;
  if (replay) {
    auto it = ru.find(k);
    v = it == ru.end() ? lo : it->second;
  } else if (hi - lo > 100000)
    v = lo + (rnd() % 4 ? rnd() % 12 : rnd() % 80);
  else
    v = rnd() % 4 ? lo + rnd() % (hi - lo + 1) : (rnd() & 1 ? lo : hi);
  lg("u %s %llx\n", k.c_str(), v);
  if (v < lo || v > hi) throw Skip();
  return v;
}
uint64_t vp_choose(const char *n, uint64_t lo, uint64_t hi) { return vp_range(n, lo, hi); }
float vp_real(const char *n) {
  std::string k = key(n);
  float f = 0;
  uint32_t b = 0;
  if (replay) {
    auto it = ru.find(k);
    b = it == ru.end() ? 0 : it->second;
    memcpy(&f, &b, 4);
  } else {
    f = float(int64_t(rnd() % 4001) - 2000) / 64.f;
    memcpy(&b, &f, 4);
  }
  lg("u %s %llx\n", k.c_str(), b);
  return f;
}
static void fillbuf(const std::string &k, unsigned char *p, size_t n) {
  if (replay) {
    std::string &s = rb[k];
    for (size_t i = 0; i < n; i++) p[i] = i < s.size() ? s[i] : 0;
  } else {
    int mode = rnd() % 4;
    static const char small[] = "ab/\\. \t\0Az09_";
    for (size_t i = 0; i < n; i++)
      p[i] = mode == 0 ? rnd() : mode == 1 ? small[rnd() % sizeof small] : mode == 2 ? (rnd() % 3 ? 'a' : 'b') : biased(8);
  }
  if (loglen + 2 * n + 200 < sizeof(logbuf)) {
    loglen += snprintf(logbuf + loglen, 100, "b %s ", k.c_str());
    for (size_t i = 0; i < n; i++) loglen += snprintf(logbuf + loglen, 4, "%02x", p[i]);
    loglen += snprintf(logbuf + loglen, 4, "\n");
  }
}
uint64_t vp_bij(uint64_t x) {
  x ^= 0x9e3779b97f4a7c15ull;
  x *= 0xd1342543de82ef95ull;
  return x ^ (x >> 32);
}
uint64_t vp_bij_inv(uint64_t x) {
  x ^= x >> 32;
  uint64_t m = 0xd1342543de82ef95ull, inv = m;
  for (int i = 0; i < 6; i++) inv *= 2 - m * inv;
  return (x * inv) ^ 0x9e3779b97f4a7c15ull;
}
void *vp_buf(const char *n, size_t sz) {
  std::string k = key(n);
  if (sz > (1u << 26)) throw Skip();
  unsigned char *p = (unsigned char *)malloc(sz ? sz : 1);
  if (!sz) { free(p); p = (unsigned char *)malloc(0); }
  blocks.push_back(p);
  live--;
  fillbuf(k, p, sz);
  return p;
}
void vp_assume(bool c) { if (!c) throw Skip(); }
void vp_assert(bool c, const char *name) {
  if (!c) {
    failname = name;
    dump(name);
    _exit(3);
  }
}
void vp_cover(const char *n) { covers.insert(n); }
bool vp_is_freed(const void *p) { return __asan_address_is_poisoned(p); }
uint64_t vp_live_heap() { return live; }
bool vp_exists_byte(const void *p, size_t n, uint8_t c) {
  for (size_t i = 0; i < n; i++) if (((const uint8_t *)p)[i] == c) return true;
  return false;
}
void vp_touch(const void *) {}
void vp_all_hook(const void *, uint64_t n, bool (*f)(void *, uint64_t), void *c) {
  for (uint64_t i = 0; i < n; i++) vp_assume(f(c, i));
}
bool vp_all_eq(const void *p, const void *q, size_t n) {
  for (size_t i = 0; i < n; i++) if (((const uint8_t *)p)[i] != ((const uint8_t *)q)[i]) return false;
  return true;
}
struct FoldRec { std::vector<std::string> vals; };
static std::map<std::string, FoldRec> folds;
void vp_fold_hook(const char *id, void *s, uint64_t words, uint64_t wsz, uint64_t n, void (*f)(void *, void *, uint64_t), void *ctx) {
  FoldRec r;
  r.vals.emplace_back((char *)s, words * wsz);
  for (uint64_t i = 0; i < n; i++) {
    f(ctx, s, i);
    r.vals.emplace_back((char *)s, words * wsz);
  }
  folds[id] = r;
}
void vp_fold_at_hook(const char *id, void *out, uint64_t idx, bool) {
  auto &r = folds[id];
  if (idx >= r.vals.size()) throw Skip();
  memcpy(out, r.vals[idx].data(), r.vals[idx].size());
}
void vp_inv_hook(const char *, bool (*)(void *, uint64_t, uint64_t), void *, uint64_t) {}
void vp_inv_clear() {}
bool vp_throws_hook(void (*f)(void *), void *c) {
  try {
    f(c);
  } catch (Skip &) {
    throw;
  } catch (...) {
    return true;
  }
  return false;
}
void *vp_stream_hook(const char *n, size_t sz) {
  if (sz > (1u << 26)) throw Skip();
  std::string k = key(n);
  std::string s(sz, 0);
  fillbuf(k, (unsigned char *)&s[0], sz);
  auto *p = new NStream;
  p->ss.str(s);
  p->size0 = sz;
  streams.push_back(p);
  return p;
}
void *vp_stream_ios(void *s) { return static_cast<std::iostream *>(&((NStream *)s)->ss); }
uint64_t vp_stream_size(void *s) { return ((NStream *)s)->ss.str().size(); }
uint64_t vp_stream_gpos(void *s) { auto &x = ((NStream *)s)->ss; auto st = x.rdstate(); x.clear(); uint64_t r = x.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); x.clear(st); return r; }
uint64_t vp_stream_ppos(void *s) { auto &x = ((NStream *)s)->ss; return x.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::out); }
bool vp_stream_failed(void *s) { return ((NStream *)s)->ss.fail(); }
uint8_t vp_stream_at(void *s, uint64_t i) { auto t = ((NStream *)s)->ss.str(); if (i >= t.size()) throw Skip(); return t[i]; }
void vp_stream_setg(void *s, uint64_t p) { ((NStream *)s)->ss.rdbuf()->pubseekpos(p, std::ios::in); }
void vp_stream_setp(void *s, uint64_t p) { ((NStream *)s)->ss.rdbuf()->pubseekpos(p, std::ios::out); }
}

static void (*getfn(const char *n))() {
  void *f = dlsym(RTLD_DEFAULT, n);
  if (!f) { fprintf(stderr, "no harness %s\n", n); exit(2); }
  return (void (*)())f;
}
static bool runonce(void (*f)()) {
  cnt.clear();
  loglen = 0;
  folds.clear();
  live = 0;
  in_run = true;
  bool done = true;
  try {
    f();
  } catch (Skip &) {
    done = false;
  } catch (std::exception &e) {
    std::string w = std::string("unexpected exception: ") + e.what();
    dump(w.c_str());
    _exit(3);
  } catch (...) {
    dump("unexpected exception");
    _exit(3);
  }
  in_run = false;
  for (void *p : blocks) if (!__asan_address_is_poisoned(p) ) free(p);
  blocks.clear();
  for (auto *s : streams) delete s;
  streams.clear();
  return done;
}
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  curname = argv[1];
  __asan_set_death_callback(death);
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
  signal(SIGALRM, onalarm);
  signal(SIGABRT, onabrt);
  auto f = getfn(("H_" + curname).c_str());
  std::string mode = argv[2];
  if (mode == "replay") {
    replay = true;
    std::ifstream i(argv[3]);
    std::string l;
    while (std::getline(i, l)) {
      std::istringstream s(l);
      std::string k, n, v;
      s >> k >> n >> v;
      if (k == "u") ru[n] = strtoull(v.c_str(), 0, 16);
      if (k == "b") {
        std::string b;
        for (size_t q = 0; q + 1 < v.size(); q += 2) b.push_back((char)strtoul(v.substr(q, 2).c_str(), 0, 16));
        rb[n] = b;
      }
    }
    alarm(20);
    bool d = runonce(f);
    printf(d ? "VPOK\n" : "VPSKIP\n");
    return 0;
  }
  // random SEED SECONDS OUT [MAXRUNS]
  uint64_t seed = strtoull(argv[3], 0, 10);
  double secs = argc > 4 ? atof(argv[4]) : 5;
  outpath = argc > 5 ? argv[5] : nullptr;
  uint64_t maxruns = argc > 6 ? strtoull(argv[6], 0, 10) : ~0ull;
  rs ^= seed * 0x9E3779B97F4A7C15ull;
  if (!rs) rs = 1;
  timeval t0, t1;
  gettimeofday(&t0, 0);
  uint64_t runs = 0, full = 0;
  for (;;) {
    if (runs % 64 == 0) {
      gettimeofday(&t1, 0);
      if ((t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) * 1e-6 > secs) break;
      alarm(20);
    }
    if (runs >= maxruns) break;
    runs++;
    full += runonce(f);
  }
  printf("VPOK runs=%llu complete=%llu covers=%zu\n", (unsigned long long)runs, (unsigned long long)full, covers.size());
  return 0;
}
