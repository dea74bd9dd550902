// One mutation applied to an arbitrary valid tuple.
//   GEN=0: every byte of the serialized source is symbolic, accepted sources are those the library validates
//   GEN=1: the layout (descriptors, chunk order, holes) is chosen, ids, lengths and values are symbolic
// FOCUS selects the asserted property:
//   3 validity, 4 round trip, 5 isolation, 6 erase, 7 optimize, 9 failed operations
#include "model.h"
using namespace model;
using fptu::genus;
using fptu::token;
using fptu::string_view;
#ifndef FOCUS
#define FOCUS 3
#endif
#ifndef GEN
#define GEN 0
#endif

static uint8_t *make_wire(unsigned *bytes) {
#if GEN == 0
  const unsigned units = 1 + sx_choose(SX_BOUND(FOCUS == 10 ? 2 : 3, FOCUS == 10 ? 3 : 4));
  uint8_t *p = (uint8_t *)malloc(units * 4);
  sx_bytes(p, units * 4);
  *bytes = units * 4;
  return p;
#else
  // entry kinds: hole(0..2 units), u16, u32, u64, text of 1/2 units, varbin of 2 units, text without payload, text of 18 units
  static const uint8_t kind_genus[] = {31, 31, 31, 7, 9, 13, 0, 0, 1, 0, 0};
  static const uint8_t kind_units[] = {0, 1, 2, 0, 1, 2, 1, 2, 2, 0, 18};
  static const uint8_t few[] = {1, 2, 4, 7, 0};
  const unsigned k = sx_choose(SX_BOUND(3, 4) + 1);
  unsigned kind[4], order[4], units[4], np = 0, total = 0;
  for (unsigned i = 0; i < k; ++i) {
    kind[i] = k < SX_BOUND(3, 4) ? sx_choose(FOCUS == 4 || FOCUS == 10 ? 9 : FOCUS == 7 || FOCUS == 5 ? 11 : 10) : few[sx_choose(5)];
    units[i] = kind_units[kind[i]];
    total += units[i];
  }
  // the order of the chunks in the data area: choose an insertion position for each chunk
  for (unsigned i = 0; i < k; ++i)
    if (units[i]) {
      unsigned at = np ? sx_choose(np + 1) : 0;
      for (unsigned j = np; j > at; --j) order[j] = order[j - 1];
      order[at] = i;
      np++;
    }
  uint8_t *p = (uint8_t *)calloc(1 + k + total, 4);
  *bytes = 4 * (1 + k + total);
  p[0] = uint8_t(1 + k + total);
  p[2] = uint8_t(k << 3);
  unsigned pos = 1 + k;
  for (unsigned j = 0; j < np; ++j) {
    const unsigned i = order[j];
    uint8_t *d = p + 4 + 4 * i;
    d[0] = uint8_t(pos - (1 + i));
    uint8_t *q = p + 4 * pos;
    if (units[i] == 18) { q[0] = 71; q[1] = sx_u8(); q[36] = sx_u8(); q[68] = sx_u8(); q[71] = sx_u8(); pos += 18; continue; }
    sx_bytes(q, 4 * units[i]);
    if (kind_genus[kind[i]] == 0) sx_assume((1 + q[0] > 4 * (int)units[i] - 4) & (1 + q[0] <= 4 * (int)units[i]));
    if (kind_genus[kind[i]] == 1) { q[0] = units[i]; q[1] = 0; q[3] = 0; q[2] &= 3; }
    pos += units[i];
  }
  for (unsigned i = 0; i < k; ++i) {
    uint8_t *d = p + 4 + 4 * i;
    unsigned g = kind_genus[kind[i]], id;
    if (g == 31) id = units[i];
    else { id = sx_u16(); sx_assume(id < 2048); }
    if (g == 7) sx_bytes(d, 2);
    const uint16_t tag = uint16_t(g << 11 | id);
    d[2] = uint8_t(tag);
    d[3] = uint8_t(tag >> 8);
  }
  return p;
#endif
}

static void expect(item &x, uint16_t tag, const void *v, unsigned nb) {
  x.tag = tag;
  x.nb = nb;
  memcpy(x.b, v, nb);
}

enum outcome { done, no_space, other_exception };

void sx_main() {
  unsigned bytes;
  uint8_t *wire = make_wire(&bytes);
  const char *trouble = fptu::tuple_ro_weak::validate(wire, bytes, nullptr, false);
  sx_assume(trouble == nullptr);
  const unsigned more_items = sx_choose(2);
  const unsigned more_units = GEN ? FOCUS == 10 ? sx_choose(2) : sx_choose(3) : more_items * 3;
#if FOCUS == 10
  fptu::tuple_rw_managed t(wire, bytes, more_items, more_units * 4, nullptr);
#else
  fptu::tuple_rw_fixed t(wire, bytes, more_items, more_units * 4, nullptr);
#endif
  content before, after;
  snap(wire, 0, before);
  // foreign data may hold adjacent holes, which the library itself never leaves behind
  sx_assume(t.validate() == nullptr);

  // operation
  static const genus types[] = {genus::u16, genus::u32, genus::u64, genus::text, genus::varbin};
  unsigned op;
  enum { op_set, op_insert, op_erase, op_erase_all, op_compact, op_sort, op_optimize };
#if FOCUS == 4
  op = sx_choose(2);
#elif FOCUS == 6
  op = op_erase + sx_choose(2);
#elif FOCUS == 7
  op = op_compact + sx_choose(3);
#elif FOCUS == 9
  op = sx_choose(4);
#elif FOCUS == 10
  op = sx_choose(2);
#else
  op = sx_choose(7);
#endif
  unsigned ti = 0, id = 0, len = 0;
  bool discernible = false;
  item x;
  uint8_t val[FOCUS >= 9 ? 64 : 12];
  if (op < op_compact) {
    ti = GEN || SX_TIER ? sx_choose(5) : sx_choose(3) + (op < op_erase);
    id = sx_u16();
    sx_assume(id < 2048);
    if (op < op_erase) {
      sx_bytes(val, sizeof val);
      if (ti >= 3) {
        static const uint8_t lens[] = {0, 1, FOCUS >= 9 ? 60 : 5, 8};
        len = lens[GEN ? sx_choose(SX_BOUND(3, 4)) : 2];
      }
      // distinguishing null matters for empty values only
      discernible = FOCUS == 4 || ti < 3 || len == 0 ? sx_choose(2) : 0;
    }
  }
  const token tk(types[ti], id, op == op_insert || op == op_erase_all, discernible);
  const uint16_t tag = uint16_t(types[ti] << 11 | id);
  uint16_t v16; uint32_t v32; uint64_t v64;
  memcpy(&v16, val, 2); memcpy(&v32, val, 4); memcpy(&v64, val, 8);
  const string_view sv((const char *)val, len);
  bool empty = false, flag = false;
  size_t erased = 0;
  switch (ti) {
  case 0: expect(x, tag, val, 2); empty = v16 == 0; break;
  case 1: expect(x, tag, val, 4); empty = v32 == 0; break;
  case 2: expect(x, tag, val, 8); empty = v64 == 0; break;
  default: expect(x, tag, val, len); empty = len == 0; break;
  }
  const bool removal = empty && !discernible;
  outcome r = done;
  try {
    switch (op) {
    case op_set:
      switch (ti) {
      case 0: t.set_u16(tk, v16); break;
      case 1: t.set_u32(tk, v32); break;
      case 2: t.set_u64(tk, v64); break;
      case 3: t.set_string(tk, sv); break;
      case 4: t.set_varbinary(tk, sv); break;
      }
      break;
    case op_insert:
      switch (ti) {
      case 0: t.insert_u16(tk, v16); break;
      case 1: t.insert_u32(tk, v32); break;
      case 2: t.insert_u64(tk, v64); break;
      case 3: t.insert_string(tk, sv); break;
      case 4: t.insert_varbinary(tk, sv); break;
      }
      break;
    case op_erase: flag = t.erase(tk); break;
    case op_erase_all: flag = t.erase(tk); break;
    case op_compact: t.compactify(); break;
    case op_sort: t.sort_index(true); break;
    case op_optimize: t.optimize(); break;
    }
  } catch (const fptu::insufficient_space &) {
    r = no_space;
  } catch (const std::exception &) {
    r = other_exception;
  }
  sx_assert(r != other_exception, "a valid operation on a valid tuple raises nothing but lack of space");
  const fptu::tuple_ro_weak ro = t.take_weak_asis();
  const char *after_trouble = fptu::tuple_ro_weak::validate(ro.data(), ro.size(), nullptr, false);
  sx_observe(r);
  sx_observe(after_trouble == nullptr);
  // the starting states are all the consistent ones: staying among them carries every property below over
  // to whatever sequence of operations follows
  sx_assert(after_trouble == nullptr, "the serialized form is valid after the operation");
  sx_assert(t.validate() == nullptr, "the tuple is consistent after the operation");
#if FOCUS == 3 || FOCUS == 10
  sx_assert(t.brutto_size() == ro.size(), "the reported size is the serialized size");
#endif
  snap(ro.data(), 0, after);
#if FOCUS == 3 || FOCUS == 10
  sx_assert(t.junk_units() == after.holes + after.hole_units, "the reported junk is what the serialized form contains");
  sx_assert(t.loose_count() == after.n, "the reported number of fields is the number of fields present");
#endif
  if (r == no_space) {
    sx_reach("no_space");
#if FOCUS == 10
    sx_assert(false, "a growing tuple never runs out of space below the format limits");
#endif
#if FOCUS == 9
    sx_assert(op < op_compact, "maintenance never fails for lack of space");
    sx_assert(op < op_erase, "erasing a loose field never fails for lack of space");
    sx_assert(same_content(before, after), "an operation that fails for lack of space changes nothing");
#endif
    sx_done();
  }
  sx_reach("done");
  const unsigned had = count_tag(before, tag), have = count_tag(after, tag);
#if FOCUS == 10
  sx_assert(same_others(before, after, tag), "other fields are untouched when the tuple grows");
#endif
#if FOCUS == 4 || FOCUS == 10
  if (op == op_set) {
    if (removal) sx_assert(have + (had != 0) == had, "storing an empty value into a null-indiscernible field removes it");
    else {
      sx_assert(have == had + (had == 0), "storing a value replaces the first field of that id");
      sx_assert(t.is_present(tk), "the stored field is present");
    }
    switch (ti) {
    case 0: if (!removal || had <= 1) sx_assert(t.get_u16(tk) == v16, "get returns what set stored (u16)"); break;
    case 1: if (!removal || had <= 1) sx_assert(t.get_u32(tk) == v32, "get returns what set stored (u32)"); break;
    case 2: if (!removal || had <= 1) sx_assert(t.get_u64(tk) == v64, "get returns what set stored (u64)"); break;
    default:
      if (!removal || had <= 1) {
        const string_view got = ti == 3 ? t.get_string(tk) : t.get_varbinary(tk);
        sx_assert(got.size() == len, "get returns what set stored (length)");
        if (got.size() == len) sx_assert(sx_memeq(got.data(), val, len), "get returns what set stored (bytes)");
      }
    }
  } else {
    sx_assert(have == had + !removal, "insert adds exactly one item");
    if (!removal) sx_assert(count_item(after, x) == count_item(before, x) + 1, "insert adds an item with the given value");
    // every former item of the collection is still there
    int ok = 1;
    for (unsigned i = 0; i < before.n; ++i) ok &= (before.it[i].tag != tag) | (count_item(after, before.it[i]) >= count_item(before, before.it[i]));
    sx_assert(ok, "insert keeps the other items of the collection");
  }
#endif
#if FOCUS == 5
  if (op < op_compact) sx_assert(same_others(before, after, tag), "other fields are untouched");
  else sx_assert(same_content(before, after), "maintenance keeps every field");
#endif
#if FOCUS == 6
  if (op == op_erase) {
    sx_assert(flag == (had != 0), "erase reports whether the field existed");
    sx_assert(have + (had != 0) == had, "erase removes exactly one field");
  } else {
    sx_assert(flag == (had != 0), "erasing a collection reports whether it had items");
    sx_assert(have == 0, "erasing a collection removes all its items");
  }
  if (have == 0) sx_assert(!t.is_present(tk), "an erased field is absent");
  sx_assert(same_others(before, after, tag), "erase keeps the other fields");
#endif
#if FOCUS == 7
  sx_assert(same_content(before, after), "maintenance keeps every field");
  if (op != op_sort) {
    sx_assert(after.holes == 0 && t.junk_units() == 0, "compaction leaves no junk");
    sx_assert(after.units == before.units - before.holes - before.hole_units, "compaction returns all the junk space");
    sx_assert(fptu::tuple_ro_weak::validate(ro.data(), ro.size(), nullptr, true) == nullptr, "the compacted form is valid where holes are not allowed");
  }
#endif
  (void)erased; (void)had; (void)have; (void)removal;
}
