// Concrete replay back end of sx.h.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <new>
#include <sys/mman.h>
static std::vector<uint64_t> in_;
static size_t pos_;
static FILE *obs_;
static long live_ = 0;
static long fail_ = -1;
extern "C" { // allocations of the code under test (linked with --wrap), not those inside libstdc++
void *__real_malloc(size_t);
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &);
static bool fails() { return fail_ >= 0 && fail_-- == 0; }
void *__wrap_malloc(size_t n) { return fails() ? nullptr : __real_malloc(n); }
void *__wrap__Znwm(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znwm(n); }
void *__wrap__Znam(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znam(n); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { return fails() ? nullptr : __real__ZnwmRKSt9nothrow_t(n, t); }
void *__real__ZnwmSt11align_val_t(size_t, std::align_val_t);
void *__wrap__ZnwmSt11align_val_t(size_t n, std::align_val_t a) { if (fails()) throw std::bad_alloc(); return __real__ZnwmSt11align_val_t(n, a); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t n, size_t m) { return fails() ? nullptr : __real_calloc(n, m); }
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t n) { return fails() ? nullptr : __real_realloc(p, n); }
void sx_fail_alloc_after(int64_t n) { fail_ = (long)n; }
int sx_alloc_failed(void) { return fail_ < 0; }
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void mh(const volatile void *, size_t) { live_++; }
static void fh(const volatile void *p) { if (p) live_--; }
#define SX_ASAN 1
#endif
static uint64_t nx() { return pos_ < in_.size() ? in_[pos_++] : (pos_++, 0); }
extern "C" {
uint8_t sx_u8(void) { return (uint8_t)nx(); }
uint16_t sx_u16(void) { return (uint16_t)nx(); }
uint32_t sx_u32(void) { return (uint32_t)nx(); }
uint64_t sx_u64(void) { return nx(); }
void sx_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)nx(); }
unsigned sx_choose(unsigned n) { unsigned v = (unsigned)nx(); return v < n ? v : 0; }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX: assumption not met\n"); fflush(stderr); _Exit(40); } }
void sx_assert_(int c, const char *m) { if (!c) { fprintf(stderr, "SX: assertion failed: %s\n", m); fflush(stderr); _Exit(42); } }
void *sx_guarded_page(void) {
  char *p = (char *)mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == (char *)MAP_FAILED || mprotect(p + 4096, 4096, PROT_READ | PROT_WRITE)) { fprintf(stderr, "SX: no page\n"); _Exit(40); }
  return p + 4096;
}
void sx_reach(const char *) {}
void sx_observe(uint64_t v) { if (obs_) { fprintf(obs_, "%llu\n", (unsigned long long)v); fflush(obs_); } }
int sx_memeq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t sx_ite64(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t sx_live_allocs(void) { return (uint64_t)live_; }
void sx_done(void) { _Exit(0); }
void sx_print(const char *t, uint64_t v) { fprintf(stderr, "[print] %s %llu\n", t, (unsigned long long)v); }
}
int main(int argc, char **argv) {
  const char *fn = argc > 1 ? argv[1] : getenv("SX_INPUT");
  FILE *f = fn ? fopen(fn, "r") : nullptr;
  if (!f) { fprintf(stderr, "no input\n"); return 41; }
  char line[256];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    unsigned w; unsigned long long v;
    if (sscanf(line, "%u %llu", &w, &v) == 2) in_.push_back(v);
  }
  fclose(f);
  if (argc > 2) obs_ = fopen(argv[2], "w");
#ifdef SX_ASAN
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
  live_ = 0;
  sx_main();
  if (obs_) fclose(obs_);
  _Exit(0);
}
