// A tuple which grows on demand: sequences of insertions of any mix of sizes up to the format limit.
#include "model.h"
using namespace fptu;
struct rec { unsigned kind; size_t n; uint8_t a, b; uint64_t u; bool live; };
static const uint32_t sizes[] = {3, 300, 3000, 66000, 130000, 131325};
static size_t units_of(const rec &r) { return r.kind ? 3 : 1 + (r.n + (r.n < 254 ? 1 : 3) + 3) / 4; }
void sx_main() {
  static const uint16_t room_items[] = {0, 1, 40};
  const unsigned room = sx_choose(3);
  const bool bare = room == 1 && sx_choose(2); // kept in plain memory instead of a shared buffer
  tuple_rw_managed t(room_items[room], room_items[room] * 4, nullptr, bare ? hippeus::buffer_tag() : fptu::default_buffer_allot());
  const token tt(genus::text, 5, true), tu(genus::u64, 6, true), tb(genus::text, 7, true);
  rec r[8];
  unsigned n = 0;
  size_t used = 1; // header
  bool failed = false;
  char *buf = (char *)calloc(1, 131328);
  const unsigned steps = SX_BOUND(4, 6);
  for (unsigned i = 0; i < steps; ++i) {
    const unsigned what = sx_choose(8);
    if (what == 7) { // drop the first text item, if any
      unsigned k = 0;
      while (k < n && (r[k].kind || r[k].n > 3000 || !r[k].live)) ++k;
      const bool any = k < n;
      const bool did = t.erase(token(genus::text, 5));
      sx_assert(did == any, "erasing reports whether there was an item");
      // which one goes is not specified: find out below by looking
      if (any) {
        for (unsigned j = 0; j < n; ++j)
          if (r[j].live && !r[j].kind && r[j].n <= 3000) {
            unsigned same = 0, have = 0;
            for (unsigned m = 0; m < n; ++m) same += r[m].live && !r[m].kind && r[m].n == r[j].n;
            for (auto it : t.collection(tt)) have += it.get_string().size() == r[j].n;
            if (have != same) {
              if (same > 1) sx_done(); // ambiguous among items of equal length
              sx_assert(have + 1 == same, "erasing one item removes one item");
              r[j].live = false;
              used -= units_of(r[j]);
              break;
            }
          }
      }
      continue;
    }
    rec x{};
    x.live = true;
    if (what == 6) { x.kind = 1; x.u = sx_u64() | 1; }
    else { x.n = sizes[what]; x.a = sx_u8(); x.b = sx_u8(); }
    const bool fits = used + units_of(x) <= 65535;
    bool ok = true;
    try {
      if (x.kind) t.insert_u64(tu, x.u);
      else {
        buf[0] = (char)x.a;
        buf[x.n - 1] = (char)x.b;
        t.insert_string(x.n > 3000 ? tb : tt, string_view(buf, x.n));
        buf[x.n - 1] = 0;
      }
    } catch (const std::exception &) {
      ok = false;
    }
    sx_assert(ok || !fits, "whatever fits the format limit can be added");
    sx_assert(!ok || fits, "nothing beyond the format limit can be added");
    if (ok) { r[n++] = x; used += units_of(x); }
    else { failed = true; sx_reach("overflow"); }
    // everything is there
    unsigned cnt = 0, live_t = 0, live_u = 0;
    for (unsigned j = 0; j < n; ++j) (r[j].kind ? live_u : live_t) += r[j].live;
    for (unsigned big = 0; big < 2; ++big) for (auto it : t.collection(big ? tb : tt)) {
      const string_view s = it.get_string();
      int found = 0;
      for (unsigned j = 0; j < n; ++j)
        if (r[j].live && !r[j].kind && r[j].n == s.size()) found |= ((uint8_t)s[0] == r[j].a) & ((uint8_t)s[s.size() - 1] == r[j].b);
      sx_assert(found, "every text present is one that was added");
      ++cnt;
    }
    sx_assert(cnt == live_t, "all the added texts are present");
    cnt = 0;
    for (auto it : t.collection(tu)) {
      int found = 0;
      const uint64_t u = it.get_u64();
      for (unsigned j = 0; j < n; ++j)
        if (r[j].kind) found |= u == r[j].u;
      sx_assert(found, "every number present is one that was added");
      ++cnt;
    }
    sx_assert(cnt == live_u, "all the added numbers are present");
    sx_assert(t.validate() == nullptr, "the growing tuple is consistent");
    sx_assert(t.brutto_size() - 4 * t.junk_units() == 4 * used, "the size is the sum of the content");
  }
  (void)failed;
  const tuple_ro_weak w = t.take_weak_asis();
  sx_assert(tuple_ro_weak::validate(w.data(), w.size(), nullptr) == nullptr, "the serialized form is valid");
  sx_reach("done");
}
