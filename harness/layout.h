// An arbitrary consistent serialized tuple: the layout is chosen, ids, lengths and values are symbolic.
#pragma once
#include "model.h"
namespace model {
// entry kinds: hole(0..2 units), u16, u32, u64, text of 1/2 units, varbin of 2 units, text without payload
static inline uint8_t *layout_wire(unsigned kmax, unsigned *bytes) {
  static const uint8_t kind_genus[] = {31, 31, 31, 7, 9, 13, 0, 0, 1, 0};
  static const uint8_t kind_units[] = {0, 1, 2, 0, 1, 2, 1, 2, 2, 0};
  static const uint8_t few[] = {1, 2, 4, 7, 0};
  const unsigned k = sx_choose(kmax + 1);
  unsigned kind[6], order[6], units[6], np = 0, total = 0;
  for (unsigned i = 0; i < k; ++i) {
    kind[i] = k < kmax ? sx_choose(10) : few[sx_choose(5)];
    units[i] = kind_units[kind[i]];
    total += units[i];
  }
  for (unsigned i = 0; i < k; ++i)
    if (units[i]) {
      unsigned at = np ? sx_choose(np + 1) : 0;
      for (unsigned j = np; j > at; --j) order[j] = order[j - 1];
      order[at] = i;
      np++;
    }
  uint8_t *p = (uint8_t *)calloc(1 + k + total, 4);
  *bytes = 4 * (1 + k + total);
  p[0] = uint8_t(1 + k + total);
  p[2] = uint8_t(k << 3);
  unsigned pos = 1 + k;
  for (unsigned j = 0; j < np; ++j) {
    const unsigned i = order[j];
    p[4 + 4 * i] = uint8_t(pos - (1 + i));
    uint8_t *q = p + 4 * pos;
    sx_bytes(q, 4 * units[i]);
    if (kind_genus[kind[i]] == 0) {
      q[0] = uint8_t(4 * units[i] - 1 - sx_choose(2));
      if (q[0] == 4 * units[i] - 2) q[4 * units[i] - 1] = 0;
    }
    if (kind_genus[kind[i]] == 1) q[0] = uint8_t(units[i]), q[1] = 0, q[3] = 0, q[2] = 2, q[6] = 0, q[7] = 0;
    pos += units[i];
  }
  for (unsigned i = 0; i < k; ++i) {
    uint8_t *d = p + 4 + 4 * i;
    const unsigned g = kind_genus[kind[i]];
    const unsigned id = g == 31 ? units[i] : sx_u16() & 2047u;
    if (g == 7) sx_bytes(d, 2);
    d[2] = uint8_t(id);
    d[3] = uint8_t(g << 3 | id >> 8);
  }
  return p;
}
} // namespace model
