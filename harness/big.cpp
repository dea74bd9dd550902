// Tuples near the limits of the format: 65535 units in all, 8191 fields. PART 0: one large value, PART 1: many fields.
#include "model.h"
#include <memory>
using namespace fptu;
#ifndef TUPLE
#define TUPLE tuple_rw_fixed
#endif
enum { LIMIT_UNITS = 65534, LIMIT_FIELDS = 8191 };
static constexpr bool growing = std::is_same<TUPLE, tuple_rw_managed>::value;
static char *filler; // whatever is stored, concrete but for a few bytes
static uint32_t first_value;
struct expected { unsigned fields, units; }; // units without the header
static void consistent(const TUPLE &t, const schema *s, const expected &e) {
  sx_assert(t.validate() == nullptr, "a large tuple is consistent");
  sx_assert(t.loose_count() == e.fields, "the number of fields is right");
  const tuple_ro_weak w = t.take_weak_asis();
  sx_assert(w.size() <= 4 * 65535 && w.index_size() <= LIMIT_FIELDS, "a tuple never exceeds the limits");
  if (t.junk_units() == 0) sx_assert(w.size() == 4 + 4 * e.units, "the size is that of the content");
  sx_assert(tuple_ro_weak::validate(w.data(), w.size(), s) == nullptr, "the serialized form is valid");
}
// one more field of the given number of units of payload; false when refused
static bool put(TUPLE &t, unsigned units, unsigned id, uint32_t v) {
  try {
    if (units == 0) t.insert_u16(token(genus::u16, id, true), uint16_t(v | 1));
    else if (units == 1) t.insert_u32(token(genus::u32, id, true), v | 1);
    else t.insert_varbinary(token(genus::varbin, id, true), string_view(filler, 4 * (units - 1)));
  } catch (const insufficient_space &) {
    sx_assert(!growing, "a growing tuple never lacks space below the limits");
    return false;
  } catch (const tuple_overflow &) {
    sx_assert(growing, "only a growing tuple meets the limits");
    return false;
  }
  return true;
}
static void more(TUPLE &t, const schema *s, expected &e, unsigned units, unsigned id, uint32_t v) {
  const bool room = t.head_space() >= 1 && t.tail_space_units() >= units, fits = e.fields + 1 <= LIMIT_FIELDS && e.units + 1 + units <= LIMIT_UNITS;
  const unsigned junk = unsigned(t.junk_units());
  const bool ok = put(t, units, id, v);
  if (growing) sx_assert(ok == fits, "a growing tuple takes whatever fits in the limits");
  else {
    if (room) sx_assert(ok, "an insertion succeeds when there is space for it");
    else if (!junk) sx_assert(!ok, "an insertion is refused when there is no space for it");
    sx_assert(!ok || fits, "a tuple never exceeds the limits");
  }
  sx_reach(ok ? "stored" : "refused");
  if (ok) ++e.fields, e.units += 1 + units;
  consistent(t, s, e);
  if (ok && units == 1) sx_assert(t.take_weak_asis().get_u32(token(genus::u32, id, false)) == (v | 1), "the value stored is there");
  if (ok && units > 1) {
    const string_view got = t.take_weak_asis().get_varbinary(token(genus::varbin, id, false));
    sx_assert(got.size() == 4 * (units - 1) && sx_memeq(got.data(), filler, got.size()), "the value stored is there");
  }
}
void sx_main() {
  filler = (char *)malloc(4 * LIMIT_UNITS);
  memset(filler, 'f', 4 * LIMIT_UNITS);
  filler[0] = char(sx_u8());
  filler[77] = char(sx_u8());
  first_value = sx_u32();
  const unsigned preplaced = sx_choose(4); // units of preplaced fields
  const bool stretchy = preplaced == 3; // the last one of them is a text
  std::unique_ptr<schema> holder(schema::create());
  token p;
  for (unsigned i = 0; i < preplaced; ++i) p = holder->define_preplaced(std::string("p") + char('0' + i), stretchy && i == 2 ? genus::text : i ? genus::bin512 : genus::u32, false, false, nullptr);
  const schema *const s = preplaced ? holder.get() : nullptr;
  const unsigned fixed = preplaced == 3 ? 18 : preplaced == 2 ? 17 : preplaced;
  const token big(genus::varbin, 3, false), num(genus::u32, 4, false);
  expected e = {2, 0};
  const unsigned slack = sx_choose(4); // units left below the limit
  static const unsigned reserve[] = {0, 32, 8191, 1}, extra[] = {0, 229000, 4, 1023};
#if PART == 0
  const unsigned blob = LIMIT_UNITS - slack - 2 - 1 - fixed; // the units of the large value: the two fields of index, the number, the preplaced ones
  const bool near = sx_choose(2);
  const unsigned length = 4 * (near ? blob - 1 : (blob - 1) * 3 / 4) - sx_choose(SX_BOUND(2, 4));
  tuple_rw_fixed source(2, 4 * (blob + 1), s);
  source.set_varbinary(big, string_view(filler, length));
  source.set_u32(num, first_value | 1);
  e.units = 2 + 1 + fixed + 1 + (length + 3) / 4;
  const auto intact = [&](const TUPLE &t) {
    const string_view got = t.get_varbinary(big);
    sx_assert(got.size() == length && sx_memeq(got.data(), filler, length), "the large value is intact");
    sx_assert(t.get_u32(num) == (first_value | 1), "the other value is intact");
  };
#else
  const unsigned many = LIMIT_FIELDS - slack; // fields in all
  const unsigned heavy = sx_choose(3), room = LIMIT_UNITS - many - fixed - 1, blob = heavy == 0 ? 2 : heavy == 1 ? room - sx_choose(3) : room * 3 / 4;
  tuple_rw_fixed source(many, 4 * (blob + 1), s);
  source.set_varbinary(big, string_view(filler, 4 * (blob - 1)));
  source.set_u32(num, first_value | 1);
  for (unsigned i = 2; i < many; ++i) source.insert_u16(token(genus::u16, 9, true), uint16_t(i));
  e.fields = many;
  e.units = many + 1 + fixed + blob;
  const unsigned length = 4 * (blob - 1);
  const auto intact = [&](const TUPLE &t) {
    const string_view got = t.get_varbinary(big);
    sx_assert(got.size() == length && sx_memeq(got.data(), filler, length), "the large value is intact");
    sx_assert(t.get_u32(num) == (first_value | 1), "the other value is intact");
  };
#endif
  if (s) source.set_u32(holder->get_token("p0"), first_value);
  const tuple_ro_weak w = source.take_weak_asis();
  sx_assert(w.size() == 4 + 4 * e.units, "the source has the size expected");
  const unsigned ri = reserve[sx_choose(SX_BOUND(3, 4))], xb = extra[sx_choose(SX_BOUND(2, 4))];
  TUPLE t(w.data(), w.size(), ri, xb, s);
  consistent(t, s, e);
  intact(t);
  if (s) sx_assert(t.get_u32(holder->get_token("p0")) == first_value, "a preplaced field is intact");
  unsigned step = sx_choose(6);
  switch (step) {
  case 0: more(t, s, e, 0, 5, first_value); more(t, s, e, 0, 5, first_value); break;
  case 1: more(t, s, e, 1, 5, first_value); more(t, s, e, 0, 6, first_value); break;
  case 2: { const unsigned left = LIMIT_UNITS - e.units; if (left > 3) { more(t, s, e, left - 1, 5, 0); break; } more(t, s, e, 2, 5, first_value); break; }
  case 3: { const unsigned left = LIMIT_UNITS - e.units; more(t, s, e, left < 2 ? 2 : left, 5, 0); break; }
  case 4: { // remove the small value, then use its space
    sx_assert(t.erase(num), "the value was there");
    --e.fields, e.units -= 2;
    consistent(t, s, e);
    more(t, s, e, 1, 5, first_value);
    const string_view got = t.get_varbinary(big);
    sx_assert(got.size() == length, "the large value is intact");
    sx_reach("done");
    return;
  }
  case 5: { // a copy with more room
    TUPLE c = TUPLE::clone(t, reserve[sx_choose(SX_BOUND(3, 4))], 1000);
    consistent(c, s, e);
    intact(c);
    more(c, s, e, 1, 5, first_value);
    intact(c);
    sx_reach("done");
    return;
  }
  }
  intact(t);
  t.optimize();
  consistent(t, s, e);
  intact(t);
  sx_reach("done");
}
