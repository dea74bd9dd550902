// Sizes and free space reported by a modifiable tuple, and the room promised at creation.
#include "layout.h"
using namespace model;
using fptu::genus;
using fptu::string_view;
using fptu::token;
static content c;
static char data[64];

template <class T> static void accounts(const T &t) {
  const fptu::tuple_ro_weak ro = t.take_weak_asis();
  snap(ro.data(), 0, c);
  const unsigned idx = rd16((const uint8_t *)ro.data() + 2) >> 3;
  sx_assert(t.brutto_size() == ro.size(), "the size is that of the serialized form");
  sx_assert(t.index_size() == idx && t.payload_size_bytes() == ro.size() - 4 - 4 * idx, "the sizes of the parts are those of the serialized form");
  sx_assert(t.loose_count() == c.n, "the number of fields is the number of fields present");
  sx_assert(t.empty() == (c.n == 0), "a tuple is empty exactly when it has no fields");
  sx_assert(t.junk_units() == c.holes + c.hole_units && t.junk_bytes() == 4 * t.junk_units(), "the junk is what the serialized form contains");
  sx_assert(t.netto_size() == ro.size() - 4 * (c.holes + c.hole_units), "the net size is the size without the junk");
  sx_assert(t.tail_space_bytes() == 4 * t.tail_space_units(), "free space in bytes and units");
  sx_assert(4 * t.head_space() + t.brutto_size() - 4 + t.tail_space_bytes() == t.capacity(), "used and free space make up the capacity");
}

// stores a field which needs the given number of units; returns false for lack of space
template <class T> static bool put(T &t, unsigned units, unsigned id) {
  try {
    if (units == 0) t.insert_u16(token(genus::u16, id, true), 7);
    else if (units == 1) t.insert_u32(token(genus::u32, id, true), 7);
    else t.insert_varbinary(token(genus::varbin, id, true), string_view(data, 4 * (units - 1)));
  } catch (const fptu::insufficient_space &) {
    return false;
  }
  return true;
}

static void fresh(unsigned items, unsigned bytes) {
  fptu::tuple_rw_fixed t(items, bytes, nullptr);
  sx_assert(t.empty() && t.loose_count() == 0 && t.brutto_size() == 4, "a new tuple is empty");
  const unsigned head = unsigned(t.head_space()), tail = unsigned(t.tail_space_units());
  sx_assert(head >= items && 4 * tail >= bytes, "a new tuple has the room asked for");
  for (unsigned round = 0; round < 2; ++round) {
    unsigned left = bytes / 4;
    for (unsigned i = 0; i < items; ++i) {
      const unsigned u = sx_choose(left + 1);
      sx_assert(put(t, u, i), "a new tuple holds as many fields and as much data as asked for");
      left -= u;
      accounts(t);
    }
    t.reset();
    accounts(t);
    sx_assert(t.empty() && t.head_space() == head && t.tail_space_units() == tail, "a reset tuple has all its room again");
  }
}

static void reopened() {
  unsigned bytes;
  uint8_t *w = layout_wire(SX_BOUND(3, 3), &bytes);
  sx_assume(fptu::tuple_ro_weak::validate(w, bytes, nullptr, false) == nullptr);
  static const uint8_t extra[] = {0, 3, 8, 4, 9, 1};
  const unsigned items = sx_choose(3), more = extra[sx_choose(SX_BOUND(3, 6))];
  fptu::tuple_rw_fixed a(w, bytes, items, more, nullptr);
  sx_assume(a.validate() == nullptr);
  fptu::tuple_rw_fixed b = sx_choose(2) ? fptu::tuple_rw_fixed::clone(a, items, more) : std::move(a);
  accounts(b);
  sx_assert(b.head_space() >= items && b.tail_space_bytes() >= more, "a copy has the extra room asked for");
  const size_t netto = b.netto_size();
  // free space as reported suffices, whatever else the tuple contains
  const unsigned head = unsigned(b.head_space()), tail = unsigned(b.tail_space_units()), u = sx_choose(5), junk = unsigned(b.junk_units());
  const bool ok = put(b, u, 77);
  accounts(b);
  if (head && tail >= u) sx_assert(ok, "an insertion succeeds when there is space for it");
  if (!junk) sx_assert(ok == (head && tail >= u), "an insertion succeeds only when there is space for it");
  const size_t want = netto + (ok ? 4 + 4 * u : 0);
  sx_assert(b.netto_size() == want, "an insertion adds its own size to the net size");
  // three ways to the optimized form
  const unsigned way = sx_choose(5);
  size_t got = 0;
  switch (way) {
  case 0: b.compactify(); got = b.brutto_size(); break;
  case 1: got = b.take_weak_optimized().first.size(); break;
  case 2: got = b.take_weak().first.size(); break;
  case 3: got = b.take_managed_clone_optimized().first.size(); break;
  case 4: got = b.take_managed_clone().first.size(); break;
  }
  sx_assert(got == want, "the optimized form has the net size");
  accounts(b);
  sx_assert(b.brutto_size() == want && b.netto_size() == want, "sizes after optimization");
}
// what is taken as it is stays as it is
static void asis() {
  unsigned bytes;
  uint8_t *w = layout_wire(SX_BOUND(2, 3), &bytes);
  sx_assume(fptu::tuple_ro_weak::validate(w, bytes, nullptr, false) == nullptr);
  fptu::tuple_rw_fixed a(w, bytes, 0, 0, nullptr);
  sx_assume(a.validate() == nullptr);
  const unsigned way = sx_choose(3);
  const auto p = way == 0 ? std::make_pair(a.take_weak_asis(), false) : a.take_weak(true);
  if (way < 2) sx_assert(!p.second && p.first.size() == bytes && sx_memeq(p.first.data(), w, bytes), "the form taken as is equals the source");
  else {
    const auto m = a.take_managed_clone(true);
    sx_assert(!m.second && m.first.size() == bytes && sx_memeq(m.first.data(), w, bytes), "the form taken as is equals the source");
  }
}

void sx_main() {
  for (unsigned i = 0; i < sizeof data; ++i) data[i] = char(i);
  switch (sx_choose(3)) {
  case 0: {
    const unsigned items = sx_choose(4);
    fresh(items, sx_choose(14));
    break;
  }
  case 1: reopened(); break;
  case 2: asis(); break;
  }
  sx_reach("done");
}
