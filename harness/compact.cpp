// Compaction of values of every length around the sizes which are copied in different ways, with gaps of every kind before them.
#include "model.h"
#include <memory>
using namespace fptu;
void sx_main() {
  std::unique_ptr<schema> s(schema::create());
  const token p = s->define_preplaced("p", genus::u32), q = s->define_preplaced("q", genus::varbin);
  const bool schemed = sx_choose(2);
  tuple_rw_fixed t(8, 400, schemed ? s.get() : nullptr);
  const token gap(genus::varbin, 1, false), a(genus::varbin, 2, false), mid(genus::varbin, 3, false), b(genus::varbin, 4, false), in(genus::u16, 5, false), number(genus::u64, 6, false);
  uint8_t va[100], vb[100];
  const unsigned na = 1 + sx_choose(SX_BOUND(20, 24)) * 4 + sx_choose(2) * 3; // 2 to 22 units
  static const unsigned nbs[] = {1, 36, 61, 64, 68};
  const unsigned nb = nbs[sx_choose(SX_BOUND(3, 5))];
  sx_bytes(va, sizeof va);
  sx_bytes(vb, sizeof vb);
  const uint16_t vi = sx_u16() | 1;
  const uint64_t vn = sx_u64() | 1;
  const unsigned g = sx_choose(SX_BOUND(3, 6)) * 5 + 1; // size of the gap
  t.set_varbinary(gap, string_view((const char *)va, g));
  if (schemed) t.set_u32(p, 77);
  const bool preplaced_a = schemed && sx_choose(2);
  if (preplaced_a) t.set_varbinary(q, string_view((const char *)va, na));
  else t.set_varbinary(a, string_view((const char *)va, na));
  t.set_u16(in, vi);
  t.set_varbinary(mid, string_view((const char *)vb, 2));
  t.set_u64(number, vn);
  t.set_varbinary(b, string_view((const char *)vb, nb));
  sx_assert(t.erase(gap), "the value was there");
  const bool both = sx_choose(2);
  if (both) sx_assert(t.erase(mid), "the value was there");
  const size_t netto = t.netto_size();
  const auto check = [&](const tuple_ro_weak &w) {
    const string_view ga = w.get_varbinary(preplaced_a ? q : a), gb = w.get_varbinary(b);
    sx_assert(ga.size() == na && sx_memeq(ga.data(), va, na), "a value is intact after compaction");
    sx_assert(gb.size() == nb && sx_memeq(gb.data(), vb, nb), "a value is intact after compaction");
    sx_assert(w.get_u16(in) == vi && w.get_u64(number) == vn, "a number is intact after compaction");
    sx_assert(w.is_present(mid) == !both && !w.is_present(gap), "removed fields stay removed");
    if (schemed) sx_assert(w.get_u32(p) == 77, "a preplaced field is intact after compaction");
    if (!both) { const string_view m = w.get_varbinary(mid); sx_assert(m.size() == 2 && sx_memeq(m.data(), vb, 2), "a value is intact after compaction"); }
    sx_assert(w.size() == netto, "no junk is left");
  };
  switch (sx_choose(3)) {
  case 0: t.compactify(); check(t.take_weak_asis()); break;
  case 1: check(t.take_weak_optimized().first); break;
  case 2: t.sort_index(true); t.compactify(); check(t.take_weak_asis()); break;
  }
  sx_assert(t.validate() == nullptr, "the tuple is consistent");
  sx_reach("done");
}
