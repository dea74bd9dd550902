// Removing values near and beyond what one hole of the format can describe (2047 units).
#include "model.h"
using namespace fptu;
void sx_main() {
#ifdef FINDING
  const uint32_t n = 12000;
#else
  const uint32_t n = 8183 + sx_choose(3) - (sx_choose(2) ? 5000 : 0); // payloads of up to 2047 units
#endif
  char *buf = (char *)calloc(1, n);
  memset(buf, 0xff, n);
  buf[n - 1] = (char)sx_u8();
  tuple_rw_managed t(4, 70000, nullptr);
  t.set_string(token(genus::text, 1), string_view(buf, n));
  const uint64_t v = sx_u64() | 1;
  t.set_u64(token(genus::u64, 2), v);
  t.set_string(token(genus::text, 3), string_view("xyz", 3));
  const bool did = t.erase(token(genus::text, 1));
  sx_assert(did, "the value was there");
#ifdef FINDING
  sx_assert(t.validate() == nullptr, "a tuple is consistent after removal of a value larger than 2047 units");
#else
  sx_assert(t.validate() == nullptr, "a tuple is consistent after removal of a large value");
#endif
  sx_assert(t.get_u64(token(genus::u64, 2)) == v, "other fields are intact");
  const tuple_ro_weak w = t.take_weak_asis();
  sx_assert(tuple_ro_weak::validate(w.data(), w.size(), nullptr) == nullptr, "the serialized form is valid");
  t.set_string(token(genus::text, 4), string_view(buf, n - 1));
  sx_assert(t.validate() == nullptr, "a tuple is consistent after the space is used again");
  const string_view s = t.get_string(token(genus::text, 4));
  sx_assert(s.size() == n - 1, "the length of the next value");
  sx_assert(sx_memeq(s.data(), buf, n - 1), "the contents of the next value");
  sx_assert(t.get_u64(token(genus::u64, 2)) == v, "other fields are still intact");
  t.optimize();
  sx_assert(t.validate() == nullptr, "a tuple is consistent after optimization");
  sx_assert(t.get_u64(token(genus::u64, 2)) == v, "other fields are intact after optimization");
  sx_reach("done");
}
