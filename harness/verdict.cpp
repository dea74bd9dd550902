// The verdict about arbitrary bytes against an independent definition of a well-formed tuple.
// The definition is one formula over the bytes: no branches, so that only the library decides the paths.
#include "model.h"
using namespace fptu;
static int sel16(const uint8_t *p, unsigned units, unsigned lo, uint64_t at, unsigned byte) { // 16 bits at unit `at`
  uint64_t v = 0;
  for (unsigned u = lo; u < units; ++u) v = sx_ite64(at == u, model::rd16(p + 4 * u + byte), v);
  return (int)v;
}
// W: whole units given, must not exceed the buffer
static int well_formed(const uint8_t *p, unsigned units, int *holes, int *sorted) {
  const unsigned hdr = model::rd16(p + 2);
  const int n = hdr >> 3;
  *sorted = hdr & 1;
  int ok = (model::rd16(p) == units) & (n + 1 <= (int)units) & !(hdr & 2);
  *holes = 0;
  int cover[32] = {};
  for (unsigned i = 0; i + 1 < units; ++i) {
    const uint8_t *d = p + 4 + 4 * i;
    const int used = (int)i < n;
    const int off = model::rd16(d), tag = model::rd16(d + 2), g = tag >> 11, id = tag & 2047;
    const int begin = (int)i + 1 + off;
    const int inplaced = (g >= 4) & (g <= 7), hole = g == 31, fixed = (g >= 8) & (g < 31), stretchy = g < 4;
    // chunk length in units
    int fixed_units = 0;
    for (unsigned k = 8; k < 31; ++k) fixed_units = (int)sx_ite64(g == (int)k, (model::fixed_bytes(k) + 3) / 4, fixed_units);
    const int inside = begin < (int)units;
    const int w0 = sel16(p, units, 1, begin, 0), w1 = sel16(p, units, 1, begin, 2);
    const int l0 = w0 & 255, suffix = (w0 >> 8) | ((w1 & 255) << 8);
    const int text_units = (int)sx_ite64(l0 < 254, (l0 + 1 + 3) / 4, (l0 + 3 + 2 * suffix + 3) / 4);
    const int prop_units = (l0 + 2 + 3) / 4;
    int len = (int)sx_ite64(g == 0, text_units, sx_ite64(g == 3, prop_units, w0));
    const int good_stretchy = (off == 0) | (inside & (len >= 1) & ((g != 1) | (len > 1) | ((w1 & 3) == 0)) & ((g != 2) | (len >= 1 + (w1 >> 3))));
    len = (int)sx_ite64(stretchy, sx_ite64(off != 0, len, 0), sx_ite64(hole, id, sx_ite64(fixed, fixed_units, 0)));
    const int good = inplaced | (stretchy & good_stretchy) | (hole & ((id != 0) == (off != 0))) | (fixed & (off != 0));
    const int placed = (len == 0) | ((begin >= n + 1) & (begin + len <= (int)units));
    ok &= !used | (good & placed);
    *holes |= used & hole;
    for (unsigned u = 0; u < units; ++u) cover[u] += used & (len > 0) & (begin <= (int)u) & ((int)u < begin + len);
  }
  for (unsigned u = 0; u < units; ++u) ok &= ((int)u < n + 1) | (cover[u] == 1);
  return ok;
}
#ifndef CHUNKS
#define CHUNKS 0
#endif
void sx_main() {
#if CHUNKS // several payloads at any places: any order, any overlaps and gaps
  const unsigned n = 2 + sx_choose(SX_BOUND(3, 4)), odd = 0;
  static const uint8_t kinds[] = {9 /* u32, 1 unit */, 13 /* u64, 2 units */, 17 /* 96 bits */};
  uint8_t k[8];
  unsigned total = 0;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned len = 1 + sx_choose(n < 4 ? 3 : 2);
    total += len;
    k[i] = kinds[len - 1];
  }
  const unsigned units = 1 + n + total - sx_choose(total > n ? 3 : 2); // one or two units fewer: no gaps but an overlap
  uint8_t *p = (uint8_t *)malloc(units * 4);
  memset(p, 0, units * 4);
  p[0] = (uint8_t)units, p[2] = (uint8_t)(n << 3);
  const unsigned hole = sx_choose(n + 1);
  for (unsigned i = 0; i < n; ++i) {
    uint8_t *const d = p + 4 + 4 * i;
    const uint8_t off = sx_u8();
    sx_assume(off <= units);
    d[0] = off;
    d[2] = (uint8_t)i, d[3] = (uint8_t)(k[i] << 3);
    if (i == hole) d[2] = (uint8_t)(1 + (k[i] - 9) / 4), d[3] = 31 << 3;
  }
#else
  const unsigned units = 1 + sx_choose(SX_BOUND(5, 6));
  const unsigned odd = sx_choose(4);
  uint8_t *p = (uint8_t *)malloc(units * 4 + odd);
  sx_bytes(p, units * 4 + odd);
#endif
  const bool deny_holes = sx_choose(2);
  const bool accepted = tuple_ro_weak::validate(p, units * 4 + odd, nullptr, deny_holes) == nullptr;
  sx_observe(accepted);
  int holes = 0, sorted = 0;
  const int wf = well_formed(p, units, &holes, &sorted) & (odd == 0);
  if (accepted) {
    sx_reach("accepted");
    sx_assert(wf, "accepted bytes are a well-formed tuple");
    sx_assert(!deny_holes | !holes, "holes are refused where they are not allowed");
  } else {
    sx_reach("rejected");
    sx_assert(!wf | sorted | (deny_holes & holes), "a well-formed tuple is accepted");
  }
}
