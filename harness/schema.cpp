// Definitions in a schema: identity, place, names and lookups of every field, after any sequence of definitions.
#include "model.h"
#include <memory>
using namespace fptu;
#if IMPORT
static const genus kinds[] = {genus::text, genus::u8, genus::bin96};
#else
static const genus kinds[] = {genus::text, genus::u8, genus::u16, genus::u32, genus::bin96};
#endif
struct entry { token t; std::string name; };
static unsigned n;
static entry d[8];
static bool same_token(const token &a, const token &b) { return a.tag() == b.tag(); }

static void check(const schema &s) {
  sx_assert(s.tokens().size() == n, "the schema holds exactly the fields defined");
  unsigned pre = 0, stretchy = 0;
  for (unsigned i = 0; i < n; ++i) {
    const token &t = d[i].t;
    sx_assert(same_token(s.get_token(string_view(d[i].name)), t), "the name of a field leads to the field");
    sx_assert(s.get_name(t) == string_view(d[i].name), "a field keeps its name");
    if (!t.is_preplaced()) continue;
    ++pre;
    stretchy += t.is_stretchy();
    sx_assert(size_t(t.preplaced_offset()) + t.preplaced_size() <= s.preplaced_bytes(), "a preplaced field lies inside the preplaced area");
#if IMPORT == 0
    const unsigned unit = t.preplaced_size() < 4 ? unsigned(t.preplaced_size()) : 4;
    sx_assert(t.preplaced_offset() % unit == 0, "a preplaced field is aligned");
#endif
    for (unsigned j = 0; j < i; ++j)
      if (d[j].t.is_preplaced())
        sx_assert(size_t(t.preplaced_offset()) + t.preplaced_size() <= size_t(d[j].t.preplaced_offset()) || size_t(d[j].t.preplaced_offset()) + d[j].t.preplaced_size() <= size_t(t.preplaced_offset()), "preplaced fields do not overlap");
  }
  sx_assert(s.number_of_preplaced() == pre && s.have_preplaced() == (pre > 0) && s.number_of_stretchy_preplaced() == stretchy && s.have_stretchy_preplaced() == (stretchy > 0), "the schema counts its preplaced fields");
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < i; ++j)
      if (!d[i].t.is_preplaced() && !d[j].t.is_preplaced())
        sx_assert(d[i].t.type() != d[j].t.type() || d[i].t.id() != d[j].t.id(), "loose fields have distinct identities");
}
static void lookups(const schema &s) {
  const unsigned what = sx_choose(3);
  if (what == 0) { // a descriptor of a loose field
    details::field_loose *f = (details::field_loose *)malloc(4);
    f->loose_header = 0;
    const uint16_t desc = sx_u16();
    sx_assume((desc >> 11) < 31);
    f->genus_and_id = desc;
    const token r = s.by_loose(f);
    bool found = false;
    for (unsigned i = 0; i < n; ++i)
      if (!d[i].t.is_preplaced() && desc == (unsigned(d[i].t.type()) << 11 | d[i].t.id())) {
        found = true;
        sx_assert(same_token(r, d[i].t), "a loose field is found by its descriptor");
      }
    if (!found) sx_assert(!r.is_valid(), "an unknown loose field is not found");
    free(f);
  }
  if (what == 1) { // an offset
    const int64_t o = (int64_t)sx_concretize((uint64_t)(int64_t)(int8_t)sx_range(0, (uint32_t)s.preplaced_bytes() + 2)) - 1;
    const token at = s.by_offset(o), next = s.next_by_offset(o), prev = s.prev_by_offset(o);
    const token *wat = nullptr, *wnext = nullptr, *wprev = nullptr;
    for (unsigned i = 0; i < n; ++i)
      if (d[i].t.is_preplaced()) {
        const int64_t p = d[i].t.preplaced_offset();
        if (p == o) wat = &d[i].t;
        if (p > o && (!wnext || p < wnext->preplaced_offset())) wnext = &d[i].t;
        if (p < o && (!wprev || p > wprev->preplaced_offset())) wprev = &d[i].t;
      }
    sx_assert(wat ? same_token(at, *wat) : !at.is_valid(), "a preplaced field is found by its offset");
    if (o >= 0) sx_assert(wnext ? same_token(next, *wnext) : !next.is_valid(), "the next preplaced field is found");
    if (o >= 0 && o <= (int64_t)s.preplaced_bytes()) sx_assert(wprev ? same_token(prev, *wprev) : !prev.is_valid(), "the previous preplaced field is found");
  }
  if (what != 2) return;
  for (unsigned i = 0; i < n; ++i) {
    const token f = s.get_token(string_view(d[i].name), schema::boolean_option::option_enforce_true, schema::boolean_option::option_enforce_false);
    sx_assert(f.is_discernible_null() && !f.is_saturated() && details::tag_same(f.tag(), d[i].t.tag()), "options of a field may be overridden");
    sx_assert(s.get_name(f) == string_view(d[i].name), "a field keeps its name whatever the options");
  }
  bool refused = false;
  try { volatile auto z = s.get_token(string_view("missing")).tag(); (void)z; } catch (const schema_no_such_field &) { refused = true; }
  sx_assert(refused && !s.get_token_nothrow(string_view("missing")).is_valid(), "an unknown name is refused");
}

void sx_main() {
  std::unique_ptr<schema> s(schema::create());
  n = 0;
  const unsigned steps = SX_BOUND(3, 4);
  for (unsigned step = 0; step < steps; ++step) {
    const unsigned nk = IMPORT ? (step == 2 ? sx_choose(3) : 0) : sx_choose(step ? 3 : 2);
    std::string name = nk == 2 ? d[0].name : std::string(nk == 1 ? step == 1 + IMPORT ? 43 : 42 : step == 2 ? 0 : 1, char('a' + step));
    if (nk == 2 && n == 0) continue;
    bool dup = false;
    for (unsigned i = 0; i < n; ++i) dup |= d[i].name == name;
    const genus g = kinds[sx_choose(sizeof kinds / sizeof *kinds)];
    const bool discernible = step & 1, saturated = !(step & 2);
    token t;
    bool refused = false;
    const size_t before = s->preplaced_bytes();
#if IMPORT
    const unsigned how = sx_choose(4);
    bool clash = false;
    uint8_t image[16];
    for (unsigned i = 0; i < 16; ++i) image[i] = uint8_t(0x30 + step * 16 + i);
    const size_t size = details::preplaced_bytes(g);
    const unsigned off = how < 2 ? (unsigned)(size < 4 ? size : 4) * (unsigned)sx_concretize(sx_range(0, 2)) : 0;
    const unsigned id = how < 2 ? 0 : (unsigned)sx_concretize(sx_range(0, 2));
    const token given = how < 2 ? token(ptrdiff_t(off), g, discernible, saturated) : token(g, id, how == 3, discernible, saturated);
    const bool renominate = how == 1 || (how == 3 && id == 2);
    if (!renominate)
      for (unsigned i = 0; i < n; ++i)
        if (given.is_preplaced() == d[i].t.is_preplaced())
          clash |= given.is_preplaced() ? off < size_t(d[i].t.preplaced_offset()) + d[i].t.preplaced_size() && size_t(d[i].t.preplaced_offset()) < off + size : given.type() == d[i].t.type() && id == d[i].t.id();
    const bool bad = dup || name.length() > 42 || clash;
    std::string copy = name;
    try { t = s->import_definition(std::move(copy), given, given.is_preplaced() ? image : nullptr, renominate); } catch (const schema_definition_error &) { refused = true; } catch (const invalid_argument &) { refused = true; } catch (const std::logic_error &) { sx_assert(false, "a definition is accepted or refused as such"); }
    sx_assert(refused == bad, "a definition is refused exactly for a name too long or taken, or a place taken");
    if (!refused) {
      sx_assert(t.type() == g && t.is_discernible_null() == discernible && t.is_saturated() == saturated && t.is_preplaced() == given.is_preplaced() && t.is_collection() == given.is_collection(), "an imported field keeps its nature");
      if (!renominate) sx_assert(same_token(t, given), "an imported field keeps its place");
      if (t.is_preplaced()) {
        sx_assert(memcmp((const char *)s->preplaced_init_image() + t.preplaced_offset(), image, size) == 0, "the initial value lies at the place of the field");
        const size_t end = size_t(t.preplaced_offset()) + size;
        sx_assert(s->preplaced_bytes() == (before > end ? before : end), "the preplaced area is as large as needed");
      }
      sx_reach("imported");
    }
#else
    const unsigned how = sx_choose(3);
    const bool bad = dup || name.length() > 42;
    std::string copy = name;
    try {
      t = how == 0 ? s->define_preplaced(std::move(copy), g, discernible, saturated) : how == 1 ? s->define_loose(std::move(copy), g, false, discernible, saturated) : s->define_collection(std::move(copy), g, discernible, saturated);
    } catch (const schema_definition_error &) { refused = true; } catch (const invalid_argument &) { refused = true; }
    sx_assert(refused == bad, "a definition is refused exactly for a name too long or taken");
    if (!refused) sx_assert(t.type() == g && t.is_discernible_null() == discernible && t.is_saturated() == saturated && t.is_preplaced() == (how == 0) && t.is_collection() == (how == 2), "a field has the nature asked for");
#endif
    if (!refused) {
      d[n].t = t;
      d[n].name = name;
      ++n;
    } else {
      sx_reach("refused");
      sx_assert(s->preplaced_bytes() == before, "a refused definition changes nothing");
    }
    check(*s);
  }
  lookups(*s);
  sx_reach("done");
}
