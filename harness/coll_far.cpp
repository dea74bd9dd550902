// A collection whose items lie far apart, among many other fields.
#include "model.h"
using fptu::genus;
using fptu::string_view;
using fptu::token;
#ifndef TUPLE
#define TUPLE tuple_rw_fixed
#endif
template <class C> static void shows(C &&c, const uint32_t *v, const bool *gone, unsigned n) {
  unsigned at = 0, left = 0;
  for (unsigned i = 0; i < n; ++i) left += !gone[i];
  // the newest is the first one
  int good = 1;
  unsigned i = n;
  auto e = c.end();
  for (auto it = c.begin(); it != e; ++it, ++at) {
    do { if (!i) { good = 0; break; } --i; } while (gone[i]);
    if (!good) break;
    good &= (*it).get_u32() == v[i];
  }
  sx_assert(at == left, "iteration shows every item of the collection once");
  sx_assert(good, "iteration shows the items' values");
}
void sx_main() {
  static const unsigned gaps[] = {0, 1, 7, 15, 16, 17, 31, 32, 63, 64, 65, 100, 127, 128, 200, 255, 256, 300};
  const unsigned ngaps = sizeof gaps / sizeof *gaps;
  const unsigned g1 = gaps[sx_choose(ngaps)], g2 = gaps[sx_choose(SX_BOUND(3, ngaps))];
  const unsigned n = 3;
  fptu::TUPLE t(g1 + g2 + n + 2, 64, nullptr);
  const token c(genus::u32, 77, true, true);
  uint32_t v[3];
  bool gone[3] = {};
  unsigned id = 0;
  for (unsigned i = 0; i < n; ++i) {
    v[i] = sx_u32();
    t.insert_u32(c, v[i]);
    for (unsigned k = i == 0 ? g1 : i == 1 ? g2 : 0; k; --k, ++id) t.set_u16(token(genus::u16, id), uint16_t(id + 1));
  }
  shows(t.collection(c), v, gone, n);
  const unsigned op = sx_choose(5);
  if (op < 3) { // erase one of them
    auto it = t.collection(c).begin();
    for (unsigned k = n - 1; k > op; --k) ++it;
    sx_assert(t.erase(it), "an item is erased");
    gone[op] = true;
    sx_reach("erased");
  } else if (op == 3) {
    sx_assert(t.erase(t.collection(c)) == n, "the whole collection is erased");
    gone[0] = gone[1] = gone[2] = true;
    sx_reach("all");
  } else { // change the oldest one
    auto it = t.collection(c).begin();
    ++it, ++it;
    v[0] = sx_u32();
    (*it).set_u32(v[0]);
    sx_reach("written");
  }
  shows(t.collection(c), v, gone, n);
  fptu::tuple_ro_weak w = t.take_weak_asis();
  sx_assert(w.validate(nullptr, false) == nullptr, "the serialized form is valid");
  shows(w.collection(c), v, gone, n);
  int good = 1;
  for (unsigned k = 0; k < id; ++k) good &= t.get_u16(token(genus::u16, k)) == k + 1;
  sx_assert(good, "other fields stay");
}
