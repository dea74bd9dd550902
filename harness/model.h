// Shared reference model of a tuple's content, built from the serialized form only.
#pragma once
#include "sx.h"
#include <cstdlib>
#include <cstring>
#include "fast_positive/tuples.h"

namespace model {
static inline unsigned fixed_bytes(unsigned genus) { // payload bytes of fixed-size loose fields
  switch (genus) {
  case 4: case 5: return 1;
  case 6: case 7: return 2;
  case 8: case 9: case 10: case 11: return 4;
  case 12: case 13: case 14: case 15: case 16: case 26: return 8;
  case 17: return 12;
  case 18: case 27: case 29: return 16;
  case 19: return 20;
  case 20: return 24;
  case 21: return 28;
  case 22: return 32;
  case 23: return 40;
  case 24: return 48;
  case 25: return 64;
  case 28: return 8;
  case 30: return 20;
  }
  return 0;
}
#ifndef MAXN
#define MAXN 8
#endif
#ifndef MAXB
#define MAXB 72
#endif
struct item {
  uint16_t tag;
  uint16_t nb; // value bytes
  uint8_t b[MAXB];
};
struct content {
  unsigned n;
  unsigned holes, hole_units, units;
  item it[MAXN];
};
static inline uint16_t rd16(const uint8_t *p) { return uint16_t(p[0] | p[1] << 8); }

// units of the chunk (header included) and the value's bytes
static inline const uint8_t *stretchy(unsigned genus, const uint8_t *p, unsigned *nb) {
  switch (genus) {
  case 0: {
    unsigned l = (unsigned)sx_concretize(p[0]);
    if (l < 254) { *nb = l; return p + 1; }
    *nb = l + 2 * (unsigned)sx_concretize(rd16(p + 1));
    return p + 3;
  }
  case 1: {
    unsigned u = (unsigned)sx_concretize(rd16(p)), t = (unsigned)sx_concretize(rd16(p + 2) & 3);
    *nb = 4 * (u - 1) - ((4 - t) & 3);
    return p + 4;
  }
  case 2: *nb = 4 * (unsigned)sx_concretize(rd16(p)); return p;
  default: *nb = 1 + (unsigned)sx_concretize(p[0]); return p + 1; // id byte, then data
  }
}

static inline void snap(const void *wire, size_t preplaced, content &c) {
  const uint8_t *w = (const uint8_t *)wire;
  unsigned idx = (unsigned)sx_concretize(rd16(w + 2)) >> 3;
  c.n = c.holes = c.hole_units = 0;
  c.units = (unsigned)sx_concretize(rd16(w));
  for (unsigned i = 0; i < idx; ++i) {
    const uint8_t *d = w + 4 + 4 * i;
    const uint16_t tag = rd16(d + 2);
    const unsigned genus = (unsigned)sx_concretize(tag >> 11);
    if (genus == 31) {
      c.holes += 1;
      c.hole_units += tag & 2047;
      continue;
    }
    sx_assert(c.n < MAXN, "harness capacity (items)");
    item &x = c.it[c.n++];
    x.tag = tag;
    if (genus >= 4 && genus <= 7) {
      x.nb = fixed_bytes(genus);
      for (unsigned k = 0; k < x.nb; ++k) x.b[k] = d[k];
      continue;
    }
    const unsigned off = (unsigned)sx_concretize(rd16(d));
    if (genus < 4 && off == 0) {
      x.nb = 0xFFFF; // present without a payload
      continue;
    }
    const uint8_t *p = d + 4 * off;
    unsigned nb = fixed_bytes(genus);
    if (genus < 4) p = stretchy(genus, p, &nb);
    sx_assert(nb <= MAXB, "harness capacity (bytes)");
    x.nb = nb;
    memcpy(x.b, p, nb);
  }
}

static inline int same_item(const item &a, const item &b) {
  if (a.nb != b.nb) return 0;
  if (a.nb == 0xFFFF) return a.tag == b.tag;
  return (a.tag == b.tag) & sx_memeq(a.b, b.b, a.nb);
}
// multiset equality, as one formula
static inline int same_content(const content &a, const content &b) {
  if (a.n != b.n) return 0;
  int ok = 1;
  for (unsigned i = 0; i < a.n; ++i) {
    unsigned ca = 0, cb = 0;
    for (unsigned j = 0; j < a.n; ++j) {
      ca += same_item(a.it[i], a.it[j]);
      cb += same_item(a.it[i], b.it[j]);
    }
    ok &= ca == cb;
  }
  return ok;
}
// does the sub-multiset of items whose tag differs from `tag` coincide?
static inline int same_others(const content &a, const content &b, uint16_t tag) {
  unsigned na = 0, nb = 0;
  for (unsigned j = 0; j < a.n; ++j) na += a.it[j].tag != tag;
  for (unsigned j = 0; j < b.n; ++j) nb += b.it[j].tag != tag;
  int ok = na == nb;
  for (unsigned i = 0; i < a.n; ++i) {
    unsigned ca = 0, cb = 0;
    for (unsigned j = 0; j < a.n; ++j) ca += same_item(a.it[i], a.it[j]);
    for (unsigned j = 0; j < b.n; ++j) cb += same_item(a.it[i], b.it[j]);
    ok &= (a.it[i].tag == tag) | (ca == cb);
  }
  return ok;
}
static inline unsigned count_tag(const content &a, uint16_t tag) {
  unsigned n = 0;
  for (unsigned j = 0; j < a.n; ++j) n += a.it[j].tag == tag;
  return n;
}
static inline unsigned count_item(const content &a, const item &x) {
  unsigned n = 0;
  for (unsigned j = 0; j < a.n; ++j) n += same_item(a.it[j], x);
  return n;
}
} // namespace model
