// Making tuples by a scale, by defaults and by copying from other forms: every way there is.
#include "model.h"
#include <memory>
using namespace fptu;
#ifndef TUPLE
#define TUPLE tuple_rw_fixed
#endif
static const unsigned items_of[] = {32, 128, 512, 2048, 8191};
static const unsigned bytes_of[] = {1023, 4095, 16383, 65534, 262136};
static const unsigned more_of[] = {894, 3578, 14312, 57250, 229000};

void sx_main() {
  const initiation_scale scale = initiation_scale(sx_choose(5)), other = initiation_scale(sx_choose(2) ? 4 - scale : scale);
  const bool schemed = sx_choose(2), wide = schemed && sx_choose(2);
  std::unique_ptr<schema> own(schema::create()), dflt(schema::create());
  token p, l, dp, dl;
  for (unsigned i = 0; i < 2; ++i) { // two schemas of the same structure
    schema *s = i ? dflt.get() : own.get();
    (i ? dp : p) = s->define_preplaced("p", genus::u32, false, false, nullptr);
    if (wide) for (unsigned k = 0; k < 5; ++k) s->define_preplaced(std::string("w") + char('0' + k), genus::bin512, false, false, nullptr);
    (i ? dl : l) = s->define_loose("l", genus::text);
  }
  const schema *const arg = schemed ? own.get() : nullptr, *const def = schemed ? dflt.get() : nullptr;
  defaults::setup(scale, schemed ? std::move(dflt) : nullptr);
  const unsigned fixed = !schemed ? 0 : wide ? 4 + 5 * 64 : 4;
  const unsigned estimate = unsigned(estimate_space_for_tuple(scale, arg));
  sx_assert(defaults::estimate_space_for_tuple() == estimate, "the default scale is the one set up");
  sx_assert(estimate >= bytes_of[scale] && estimate >= fixed, "the estimate includes the data");
  if (scale) sx_assert(estimate > estimate_space_for_tuple(initiation_scale(scale - 1), arg), "a larger scale takes more");

  const uint32_t value = sx_u32();
  sx_assume(value != 0);
  char text[3];
  sx_bytes(text, sizeof text);
  const token single(genus::u32, 5, false);
  tuple_rw_fixed source(4, 400, arg);
  const bool filled = sx_choose(2);
  if (filled) {
    if (schemed) source.set_u32(p, value);
    source.set_u32(single, value);
    source.set_string(l, string_view(text, sizeof text));
  }
  const tuple_ro_weak weak = source.take_weak_asis();
  const tuple_ro_managed shared = source.take_managed_clone_asis();
  TUPLE t(0, 0, nullptr);
  const schema *sch = nullptr;
  bool fresh = false;
  unsigned sc = scale;
  switch (sx_choose(16)) {
  case 0: t = TUPLE(defaults()); sch = def; fresh = true; break;
  case 1: t = TUPLE(other); sch = def; sc = other; fresh = true; break;
  case 2: t = TUPLE(other, arg); sch = arg; sc = other; fresh = true; break;
  case 3: t = TUPLE(weak.data(), weak.size(), defaults()); sch = def; break;
  case 4: t = TUPLE(weak.data(), weak.size(), other); sch = def; sc = other; break;
  case 5: t = TUPLE(weak.data(), weak.size(), other, arg); sch = arg; sc = other; break;
  case 6: t = TUPLE::clone(weak, defaults()); sch = def; break;
  case 7: t = TUPLE::clone(weak, other); sch = def; sc = other; break;
  case 8: t = TUPLE::clone(weak, other, arg); sch = arg; sc = other; break;
  case 9: t = TUPLE::clone(shared, defaults()); sch = def; break;
  case 10: t = TUPLE::clone(shared, other); sch = def; sc = other; break;
  case 11: t = TUPLE::clone(shared, other, arg); sch = arg; sc = other; break;
  case 12: t = TUPLE::clone(source, other); sch = arg; sc = other; break;
  case 13: t = TUPLE::clone(shared, 3, 9, arg); sch = arg; sc = 99; break;
  case 14: t = TUPLE::clone(weak, 3, 9, arg); sch = arg; sc = 99; break;
  case 15: { tuple_ro_managed a(shared); t = TUPLE(std::move(a)); sch = arg; sx_assert(!a, "what was moved from is left empty"); break; } // shared by two handles, hence copied
  }
  sx_assert(t.schema() == sch, "a tuple has the schema asked for");
  sx_assert(t.validate() == nullptr, "a tuple made is consistent");
  const token k = schemed ? sch == def ? dp : p : single;
  if (fresh) {
    sx_assert(t.loose_count() == 0 && t.index_size() == 0 && t.payload_size_bytes() == fixed, "a new tuple has no fields but those of its schema");
    sx_assert(t.head_space() >= items_of[sc], "a new tuple has the room of its scale");
    if (sc < 4) sx_assert(t.tail_space_bytes() + fixed >= bytes_of[sc] / 4 * 4, "a new tuple has the room of its scale");
    else sx_assert(t.head_space() * 4 + t.tail_space_bytes() + fixed == 65534 * 4, "the largest scale gives all the format allows");
    if (schemed) sx_assert(t.get_u32(k) == 0, "a new tuple is blank");
  } else {
    sx_assert(t.brutto_size() == weak.size() && sx_memeq(t.take_weak_asis().data(), weak.data(), weak.size()), "a copy has the content of its source");
    const unsigned items = sc == 99 ? 3 : items_of[sc], more = sc == 99 ? 9 : more_of[sc];
    sx_assert(t.head_space() >= items - (items == 8191 ? t.index_size() : 0) && t.tail_space_bytes() >= more - (items == 8191 ? 400 : 0), "a copy has the extra room of its scale");
    if (filled && schemed) sx_assert(t.get_u32(k) == value, "a copy has the values of its source");
    sx_assert(t.is_present(single) == filled, "a copy has the values of its source");
  }
  const unsigned total = unsigned(t.capacity());
  sx_assert(total <= 65535u * 4, "a tuple is never larger than the limit");
  // a tuple made from another one lives on its own
  const uint32_t next = sx_u32();
  sx_assume(next != 0);
  t.set_u32(single, next);
  sx_assert(t.get_u32(single) == next, "a tuple made is usable");
  sx_assert(weak.is_present(single) == filled && (!filled || weak.get_u32(single) == value), "changing a copy leaves its source as it was");
  sx_assert(shared.is_present(single) == filled && (!filled || shared.get_u32(single) == value), "changing a copy leaves its source as it was");
  sx_reach("done");
  defaults::setup(initiation_scale::tiny, nullptr);
}
