// Harness API.  Under the symbolic executor these are built in; natively (replay) they read a
// concrete input vector from the file named by SX_INPUT.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t sx_u8(void);
uint16_t sx_u16(void);
uint32_t sx_u32(void);
uint64_t sx_u64(void);
void sx_bytes(void *p, size_t n);      // n fresh symbolic bytes
unsigned sx_choose(unsigned n);        // explored exhaustively: 0..n-1
uint64_t sx_concretize(uint64_t v);    // enumerate all feasible values
void sx_assume(int cond);
void sx_assert_(int cond, const char *msg);
void sx_reach(const char *label);
void sx_observe(uint64_t v);
int sx_memeq(const void *a, const void *b, size_t n); // non-forking
uint64_t sx_ite64(int c, uint64_t a, uint64_t b);     // non-forking
uint64_t sx_live_allocs(void);
void sx_fail_alloc_after(int64_t n);    // n more allocations succeed, the next one fails, once; negative: none fails
int sx_alloc_failed(void);              // no failure is pending (any more)
void *sx_guarded_page(void);            // 4096 bytes, page aligned, inaccessible neighbours
void sx_done(void) __attribute__((noreturn));
void sx_print(const char *tag, uint64_t v);
void sx_main(void);
}
#define sx_assert(c, m) sx_assert_(!!(c), m)
static inline uint32_t sx_range(uint32_t lo, uint32_t hi) { // inclusive
  uint32_t v = sx_u32();
  sx_assume((v >= lo) & (v <= hi));
  return v;
}
#ifndef SX_TIER
#define SX_TIER 0
#endif
#define SX_BOUND(quick, thorough) (SX_TIER ? (thorough) : (quick))
