// Lack of memory with many fields: the work of maintenance and of checks takes memory of its own.
#include "model.h"
#include "fast_positive/tuples/legacy.h"
#include <memory>
#include <new>
using namespace fptu;
#ifndef TUPLE
#define TUPLE tuple_rw_fixed
#endif
enum { FIELDS = 600 }; // more than the memory on the stack is enough for
static int32_t value[2];
static const token numbers(genus::u32, 7, true), others(genus::u64, 8, true);

// everything the tuple holds: FIELDS/2 numbers and as many wide ones but for those erased, in any order, and two fields of their own
static void intact(const tuple_ro_weak &t, unsigned wide, const char *what) {
  unsigned n = 0, m = 0, own = 0;
  bool ok = true, seen[FIELDS / 2] = {};
  for (auto i = t.cbegin_loose(), e = t.cend_loose(); i != e; ++i) {
    if (i->type() == genus::hole) continue;
    if (i->type() == genus::u32) {
      const uint32_t v = i->get_u32();
      if (v < 5 || v >= 5 + FIELDS / 2 || seen[v - 5]) { ok = false; break; }
      seen[v - 5] = true;
      ++n;
    } else if (i->type() == genus::i32) ++own;
    else ok &= i->type() == genus::u64, ++m;
  }
  sx_assert(ok && n == FIELDS / 2 && m == wide && own == 2, what);
  sx_assert(t.get_i32(token(genus::i32, 9)) == value[0] && t.get_i32(token(genus::i32, 10)) == value[1], what);
}
template <class F> static bool starved(F f) {
  sx_fail_alloc_after(sx_choose(SX_BOUND(3, 4)));
  bool ok = true;
  try { f(); } catch (const std::bad_alloc &) { ok = false; sx_reach("starved"); }
  const bool hit = sx_alloc_failed();
  sx_fail_alloc_after(-1);
  sx_assert(ok || hit, "an operation reports lack of memory only when there is one");
  return ok;
}
void sx_main() {
  value[0] = sx_u32() | 1;
  value[1] = sx_u32() | 1;
  TUPLE t(FIELDS + 3, FIELDS * 6 + 32, nullptr);
  t.set_i32(token(genus::i32, 9), value[0]);
  for (unsigned i = 0; i < FIELDS / 2; ++i) {
    if (i == 200) t.set_i32(token(genus::i32, 10), value[1]);
    t.insert_u32(numbers, i + 5);
    t.insert_u64(others, i + 1);
  }
  unsigned wide = FIELDS / 2;
  const unsigned holes = sx_choose(3);
  for (unsigned k = 0; k < holes; ++k) { // holes between the values
    auto c = t.collection(others);
    auto i = c.begin();
    for (unsigned skip = 0; skip < 3; ++skip) ++i;
    t.erase(i);
    --wide;
  }
  intact(t.take_weak_asis(), wide, "the tuple is prepared");
  const uint64_t live = sx_live_allocs();
  const unsigned what = sx_choose(std::is_same<TUPLE, tuple_rw_managed>::value ? 9 : 8);
  bool ok = true;
  std::unique_ptr<TUPLE> copy;
  tuple_ro_managed ro;
  switch (what) {
  case 0: ok = starved([&] { t.compactify(); }); break;
  case 1: ok = starved([&] { t.sort_index(true); }); break;
  case 2: ok = starved([&] { t.optimize(); }); break;
  case 3: ok = starved([&] {
    const char *reason = t.validate();
    sx_assert(!reason || sx_alloc_failed(), "a consistent tuple is refused only for lack of memory");
  }); break;
  case 4: ok = starved([&] {
    const tuple_ro_weak w = t.take_weak_asis();
    const char *reason = sx_choose(2) ? tuple_ro_weak::validate(w.data(), w.size(), nullptr, false) : w.validate(nullptr, false);
    sx_assert(!reason || sx_alloc_failed(), "a valid tuple is refused only for lack of memory");
  }); break;
  case 5: ok = starved([&] {
    const tuple_ro_weak w = t.take_weak_asis();
    copy.reset(new TUPLE(w.data(), w.size(), 1, 4, nullptr));
  }); break;
  case 6: ok = starved([&] { ro = t.take_managed_clone_optimized().first; }); break;
  case 8: { // growth
    static const uint16_t sizes[] = {8, 40, 8000};
    static char filler[8000];
    const string_view v(filler, sizes[sx_choose(3)]);
    const token tk(genus::varbin, 11, false);
    const auto op = [&] { t.set_varbinary(tk, v); };
    if (!starved(op)) {
      intact(t.take_weak_asis(), wide, "lack of memory changes nothing");
      op();
    }
    sx_assert(t.get_varbinary(tk).size() == v.size() && t.erase(tk), "the value is stored");
    sx_assert(sx_live_allocs() == live, "no memory is lost");
    break;
  }
  case 7: { // the C interface reports errors by its results
    const tuple_ro_weak w = t.take_weak_asis();
    fptu_ro c;
    c.sys.iov_base = (void *)w.data();
    c.sys.iov_len = w.size();
    sx_fail_alloc_after(0);
    const char *reason = "", *error = nullptr;
    fptu_cbfs_result cbfs;
    size_t size = 0;
    const unsigned which = sx_choose(3);
    if (which == 0) reason = fptu_check_ro(c);
    if (which == 1) size = fptu_check_and_get_buffer_size(c, 1, 4, &error);
    if (which == 2) size = fptu_check_and_get_buffer_size_ex(c, 1, 4, &cbfs);
    const bool hit = sx_alloc_failed();
    sx_fail_alloc_after(-1);
    if (which == 0) sx_assert(!reason || hit, "a valid tuple is refused only for lack of memory");
    if (which == 1) sx_assert((size != 0) == !error && (size || hit), "a valid tuple is refused only for lack of memory");
    if (which == 2) sx_assert((size != 0) == (cbfs.err == FPTU_OK) && (size || hit), "a valid tuple is refused only for lack of memory");
    sx_assert(fptu_check_ro(c) == nullptr, "a valid tuple is accepted with memory");
    break;
  }
  }
  if (copy) intact(copy->take_weak_asis(), wide, "a copy has the content"), copy.reset();
  if (ro) intact(ro.take_weak(), wide, "a copy has the content"), ro = tuple_ro_managed();
  if (what != 7) sx_assert(sx_live_allocs() == live, "no memory is lost");
  sx_assert(t.validate() == nullptr, "the tuple is consistent");
  intact(t.take_weak_asis(), wide, "the content stays");
  if (!ok && what < 3) {
    what == 0 ? t.compactify() : what == 1 ? t.sort_index(true) : t.optimize();
    sx_assert(t.validate() == nullptr && (what == 1 || t.junk_units() == 0), "maintenance is done once there is memory");
    intact(t.take_weak_asis(), wide, "maintenance keeps the content");
  }
  sx_reach("done");
}
