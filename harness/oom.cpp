// Lack of memory: every allocation of every operation may be the one that fails.
#define MAXB 512
#include "layout.h"
#include "fast_positive/tuples/legacy.h"
#include <memory>
#include <new>
using namespace fptu;
using namespace model;
static content before, after;
static char big[4096];

// runs the operation with the k-th allocation failing; tells whether it went through
template <class F> static bool starved(F f, unsigned n = SX_BOUND(3, 4)) {
  sx_fail_alloc_after(sx_choose(n));
  bool ok = true;
  try { f(); } catch (const std::bad_alloc &) { ok = false; sx_reach("starved"); }
  const bool hit = sx_alloc_failed();
  sx_fail_alloc_after(-1);
  sx_assert(ok || hit, "an operation reports lack of memory only when there is one");
  return ok;
}

static void growth(uint8_t *w, unsigned bytes) {
  tuple_rw_managed t(w, bytes, sx_choose(2), 4 * sx_choose(2), nullptr);
  sx_assume(t.validate() == nullptr);
  snap(t.take_weak_asis().data(), 0, before);
  const uint16_t tag = 1 << 11 | 77;
  sx_assume(count_tag(before, tag) == 0);
  const uint64_t live = sx_live_allocs();
  static const uint16_t sizes[] = {0, 5, 40, 400};
  const size_t n = sizes[sx_choose(SX_BOUND(4, 4))];
  const bool put = sx_choose(2);
  const token tk(genus::varbin, 77, !put);
  const auto op = [&] { if (put) t.set_varbinary(tk, string_view(big, n)); else t.insert_varbinary(tk, string_view(big, n)); };
  const bool ok = starved(op);
  sx_assert(sx_live_allocs() == live, "no memory is lost");
  sx_assert(t.validate() == nullptr, "the tuple is consistent");
  const tuple_ro_weak r = t.take_weak_asis();
  sx_assert(r.validate(nullptr, false) == nullptr, "the tuple is valid");
  snap(r.data(), 0, after);
  if (!ok) {
    sx_assert(same_content(before, after), "an operation which failed for lack of memory changes nothing");
    op();
    snap(t.take_weak_asis().data(), 0, after);
  }
  const bool there = n != 0; // an empty value is not stored: its absence reads the same
  sx_assert(after.n == before.n + there, "the operation adds its field");
  sx_assert(same_others(before, after, tag), "the operation keeps the other fields");
  if (there && put) sx_assert(t.get_varbinary(tk) == string_view(big, n), "the operation stores its value");
}

static void copies(uint8_t *w, unsigned bytes) {
  std::unique_ptr<tuple_rw_fixed> t, c;
  tuple_ro_managed r, r2;
  uint64_t live = sx_live_allocs();
  if (!starved([&] { t.reset(new tuple_rw_fixed(w, bytes, 1, 8, nullptr)); })) {
    sx_assert(sx_live_allocs() == live, "a failed construction loses no memory");
    return;
  }
  sx_assume(t->validate() == nullptr);
  snap(t->take_weak_asis().data(), 0, before);
  if (sx_choose(2)) { r = t->move_to_ro(true); r2 = r; t.reset(); }
  live = sx_live_allocs();
  bool ok;
  uint64_t add = 1;
  if (t) {
    const unsigned way = sx_choose(5);
    ok = starved([&] {
      switch (way) {
      case 0: c.reset(new tuple_rw_fixed(tuple_rw_fixed::clone(*t))); add = 2; break;
      case 1: r = t->take_managed_clone_asis(); break;
      case 2: r = t->take_managed_clone_optimized().first; break;
      case 3: r = tuple_ro_managed::clone(*t); break;
      case 4: r = tuple_ro_managed(t->take_weak_asis().data(), t->take_weak_asis().size(), nullptr); break;
      }
    });
    sx_assert(t->validate() == nullptr, "the source of a copy is consistent");
    snap(t->take_weak_asis().data(), 0, after);
    sx_assert(same_content(before, after), "the source of a copy is unchanged");
  } else {
    const unsigned way = sx_choose(3);
    ok = starved([&] {
      switch (way) {
      case 0: c.reset(new tuple_rw_fixed(tuple_rw_fixed::clone(r, 1, 8, nullptr))); add = 2; break;
      case 1: c.reset(new tuple_rw_fixed(std::move(r))); add = 2; break; // shared, so it has to be copied
      case 2: r = tuple_ro_managed::clone(r.take_weak()); break;
      }
    });
    sx_assert(bool(r2), "another handle stays");
    snap(r2.data(), 0, after);
    sx_assert(same_content(before, after), "another handle keeps the content");
    if (!ok) sx_assert(bool(r), "a source which could not be moved stays");
    if (r) {
      snap(r.data(), 0, after);
      sx_assert(same_content(before, after), "the source keeps the content");
    }
  }
  if (ok) {
    snap(c ? c->take_weak_asis().data() : r.data(), 0, after);
    sx_assert(same_content(before, after), "a copy has the content");
  }
  sx_assert(sx_live_allocs() == live + (ok ? add : 0), "a copy takes its own memory and a failed one none");
}

static void definitions() {
  auto s = schema::create();
  token a, b, c;
  const unsigned k = sx_choose(3);
  a = s->define_preplaced("a", genus::u32);
  b = s->define_loose("b", genus::text);
  if (k == 0) {
    const bool loose = sx_choose(2);
    const bool ok = starved([&] { if (loose) s->define_loose("c", genus::u64); else s->define_preplaced("c", genus::u64); }, 9);
    if (!ok) {
      sx_assert(s->preplaced_bytes() == 4 && s->number_of_preplaced() == 1 && s->tokens().size() == 2, "a failed definition leaves no place");
      sx_assert(!s->get_token_nothrow("c").is_valid(), "a failed definition leaves no name");
      c = loose ? s->define_loose("c", genus::u64) : s->define_preplaced("c", genus::u64);
    } else c = s->get_token("c");
    sx_assert(c.is_valid() && c.type() == genus::u64 && c.is_loose() == loose, "a definition is in place");
    sx_assert(s->get_name(c) == string_view("c", 1), "a definition has its name");
  } else if (k == 1) {
    std::unique_ptr<tuple_rw_fixed> t;
    if (starved([&] { t.reset(new tuple_rw_fixed(1, 8, s.get())); })) sx_assert(t->validate() == nullptr && t->get_u32(a) == 0, "a new tuple follows its schema");
  } else {
    tuple_rw_managed t(0, 0, s.get());
    t.set_u32(a, 7);
    const auto op = [&] { t.set_string(b, string_view(big, 4000)); };
    if (!starved(op)) {
      sx_assert(t.validate() == nullptr && t.get_u32(a) == 7 && !t.is_present(b), "an operation which failed for lack of memory changes nothing");
      op();
    }
    sx_assert(t.validate() == nullptr && t.get_u32(a) == 7 && t.get_string(b).size() == 4000, "the tuple has all its fields");
  }
  sx_assert(s->get_name(a) == string_view("a", 1) && s->get_name(b) == string_view("b", 1), "the earlier definitions stay");
  sx_assert(s->get_token("a") == a && s->get_token("b") == b, "the earlier definitions stay");
}

static void legacy() {
  const uint64_t live = sx_live_allocs();
  sx_fail_alloc_after(sx_choose(2));
  fptu_rw *t = fptu_alloc(2, 16);
  const bool hit = sx_alloc_failed();
  sx_fail_alloc_after(-1);
  sx_assert(!!t == !hit, "a tuple is made exactly when there is memory for it");
  if (t) {
    sx_assert(fptu_check_rw(t) == nullptr, "a new tuple is consistent");
    fptu_destroy(t);
    sx_assert(sx_live_allocs() == live, "all memory is released");
  } else {
    sx_reach("no_tuple");
    fptu_error err;
    (void)err;
  }
}

void sx_main() {
  for (unsigned i = 0; i < sizeof big; ++i) big[i] = char(i * 7 + 1);
  const unsigned what = sx_choose(4);
  if (what < 2) {
    unsigned bytes;
    uint8_t *w = layout_wire(SX_BOUND(3, 4), &bytes);
    sx_assume(tuple_ro_weak::validate(w, bytes, nullptr, false) == nullptr);
    if (what) growth(w, bytes); else copies(w, bytes);
  } else if (what == 2) definitions();
  else legacy();
  sx_reach("done");
}
