// Lookups in schemas of many fields, and the limits of numbers and places.
#include "model.h"
#include <memory>
using namespace fptu;
static bool same_token(const token &a, const token &b) { return a.tag() == b.tag(); }
static std::string nm(char c, unsigned i) { return std::string(1, c) + char('0' + i / 10) + char('0' + i % 10); }

static void lookups() {
  std::unique_ptr<schema> s(schema::create());
  static const genus kinds[] = {genus::u16, genus::text, genus::bin96, genus::u8, genus::nested};
  const unsigned n = sx_choose(SX_BOUND(14, 24)), shape = sx_choose(4);
  token d[24];
  for (unsigned i = 0; i < n; ++i) {
    const genus g = kinds[shape == 0 ? 0 : shape == 1 ? i % 2 : i % 5];
    const bool pre = shape == 3 && i % 4 == 1;
    d[i] = pre ? s->define_preplaced(nm('p', i), g, i & 1, i & 2) : s->define_loose(nm('l', i), g, i & 4, i & 1, i & 2);
  }
  if (sx_choose(2)) { // by a descriptor, any
    details::field_loose *f = (details::field_loose *)malloc(4);
    f->loose_header = 0;
    const uint16_t desc = sx_u16();
    sx_assume((desc >> 11) < 31);
    f->genus_and_id = desc;
    const token r = s->by_loose(f);
    bool found = false;
    for (unsigned i = 0; i < n; ++i)
      if (!d[i].is_preplaced() && desc == (unsigned(d[i].type()) << 11 | d[i].id())) {
        found = true;
        sx_assert(same_token(r, d[i]), "a loose field is found by its descriptor");
      }
    if (!found) sx_assert(!r.is_valid(), "an unknown loose field is not found");
    free(f);
  } else {
    const unsigned i = n ? sx_choose(n) : 0;
    if (n) sx_assert(same_token(s->get_token(string_view(nm(d[i].is_preplaced() ? 'p' : 'l', i))), d[i]) && s->get_name(d[i]) == string_view(nm(d[i].is_preplaced() ? 'p' : 'l', i)), "a field and its name lead to each other");
    sx_assert(s->tokens().size() == n, "the schema holds exactly the fields defined");
  }
  sx_reach("found");
}
static void offsets() {
  std::unique_ptr<schema> s(schema::create());
  static const genus kinds[] = {genus::u16, genus::text, genus::bin96, genus::u8, genus::nested};
  const unsigned n = sx_choose(SX_BOUND(12, 20)), shape = sx_choose(3);
  token d[24];
  for (unsigned i = 0; i < n; ++i) {
    d[i] = s->define_preplaced(nm('p', i), kinds[shape == 0 ? 3 : shape == 1 ? i % 2 : i % 5], i & 1, i & 2);
    s->define_loose(nm('l', i), kinds[i % 5]);
  }
  const ptrdiff_t o = ptrdiff_t(int32_t(sx_range(0, uint32_t(s->preplaced_bytes() + 2)))) - 1;
  const token at = s->by_offset(o), next = s->next_by_offset(o), prev = s->prev_by_offset(o);
  const token *wat = nullptr, *wnext = nullptr, *wprev = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    const ptrdiff_t p = d[i].preplaced_offset();
    if (p == o) wat = &d[i];
    if (p > o && !wnext) wnext = &d[i];
    if (p < o) wprev = &d[i];
  }
  sx_assert(wat ? same_token(at, *wat) : !at.is_valid(), "a preplaced field is found by its offset");
  if (o >= 0) sx_assert(wnext ? same_token(next, *wnext) : !next.is_valid(), "the next preplaced field is found");
  if (o >= 0 && o <= (ptrdiff_t)s->preplaced_bytes()) sx_assert(wprev ? same_token(prev, *wprev) : !prev.is_valid(), "the previous preplaced field is found");
  sx_reach("offsets");
}
// the largest numbers
static void numbers() {
  std::unique_ptr<schema> s(schema::create());
  const genus g = sx_choose(2) ? genus::u16 : genus::text;
  unsigned id = 1023 - sx_choose(3); // the upper half is reserved
  const token last = s->import_definition("a", token(g, id, sx_choose(2)), nullptr, false);
  sx_assert(last.id() == id, "an imported field keeps its number");
  for (unsigned i = 0; i < 4; ++i) {
    token t;
    bool refused = false;
    try { t = s->define_loose(std::string(1, char('b' + i)), g); } catch (const schema_definition_error &) { refused = true; }
    sx_assert(refused == (id == 1023), "a field is refused exactly when there are no more numbers");
    if (!refused) { ++id; sx_assert(t.id() == id && t.type() == g, "the next field has the next number"); }
    else sx_reach("refused");
  }
  const token other = s->define_loose("z", genus::bin96);
  sx_assert(other.id() == 0 && s->get_token("z") == other, "numbers of one type do not matter to another");
}
// the last places
static void places() {
  std::unique_ptr<schema> s(schema::create());
  static const genus kinds[] = {genus::u8, genus::u16, genus::u32, genus::text, genus::bin96, genus::bin512};
  static const unsigned sizes[] = {1, 2, 4, 4, 12, 64};
  const unsigned k = sx_choose(6), k2 = sx_choose(6);
  const unsigned off = 16384 - sx_choose(SX_BOUND(24, 90));
  token first;
  bool refused = false;
  try { first = s->import_definition("a", token(ptrdiff_t(off), kinds[k]), nullptr, false); } catch (const invalid_argument &) { refused = true; }
  sx_assert(refused == (off > 16381), "a place too far is refused");
  if (refused) { sx_reach("too_far"); return; }
  sx_assert(s->preplaced_bytes() == off + sizes[k], "the preplaced area is as large as needed");
  const unsigned align = sizes[k2] > 4 ? 4 : sizes[k2], want = (off + sizes[k] + align - 1) / align * align;
  token t;
  try { t = s->define_preplaced("b", kinds[k2]); } catch (const schema_definition_error &) { refused = true; }
  sx_assert(refused == (want > 16381), "a field is refused exactly when there are no more places");
  if (refused) { sx_reach("refused"); sx_assert(s->tokens().size() == 1 && s->preplaced_bytes() == off + sizes[k], "a refused definition changes nothing"); }
  else sx_assert(t.preplaced_offset() == ptrdiff_t(want) && s->preplaced_bytes() == want + sizes[k2] && same_token(s->by_offset(want), t), "the next field has the next place");
  sx_assert(same_token(s->get_token("a"), first) && same_token(s->by_offset(off), first), "the field defined before stays");
}
void sx_main() {
  switch (sx_choose(4)) {
  case 0: lookups(); break;
  case 1: offsets(); break;
  case 2: numbers(); break;
  case 3: places(); break;
  }
}
