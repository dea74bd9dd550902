// Variable-size values (text, binary, property, nested tuple) at the lengths where the encoding changes.
// FOCUS 4: read back from the modifiable tuple, 8: from the serialized forms, 10: from a growing tuple
#include "model.h"
using namespace fptu;
#ifndef FOCUS
#define FOCUS 4
#endif
#define MAXLEN 131325u

struct blob {
  char *p;
  size_t n;
  string_view view() const { return string_view(p, n); }
};
static blob mk(size_t n) {
  blob b{(char *)calloc(1, n ? n : 1), n};
  if (n <= 16) sx_bytes(b.p, n);
  else {
    sx_bytes(b.p, 4);
    sx_bytes(b.p + n - 4, 4);
    for (size_t i = 8; i + 8 < n; i += n / 7) sx_bytes(b.p + i, 1);
  }
  return b;
}
static bool eq(const string_view &a, const blob &b) { return a.size() == b.n && sx_memeq(a.data(), b.p, b.n); }

static const uint32_t lens[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 508, 509, 510, 511, 512, 513, 1021,
                                65533, 65535, 65536, 131070, 131072, MAXLEN - 2, MAXLEN - 1, MAXLEN, MAXLEN + 1, MAXLEN + 2, 131327 + 2};

void sx_main() {
  const unsigned kind = sx_choose(4);
  const unsigned scenario = sx_choose(3);
  const bool discernible = sx_choose(2);
  static const genus types[] = {genus::text, genus::varbin, genus::property, genus::nested};
  const unsigned n_lens = kind < 2 ? sizeof lens / 4 : kind == 2 ? 22 : 8;
  const size_t n = lens[sx_choose(n_lens)], n1 = lens[scenario ? sx_choose(n > 600 ? 1 : n < 16 ? 10 : 4) : 0];
  const bool too_long = kind == 0 ? n > MAXLEN : kind == 2 ? n > 255 : false;
#if FOCUS == 10
  tuple_rw_managed t(0, 0, nullptr);
#else
  tuple_rw_fixed t(8, n + 700, nullptr);
#endif
  const token nb1(genus::u32, 100), nb2(genus::text, 101);
  t.set_u32(nb1, 0xC0FFEEu);
  const token tk(types[kind], 77, scenario == 2, discernible);
  const blob v = mk(n), first = mk(n1);
  const int8_t pid = sx_u8(), pid1 = sx_u8();
  tuple_rw_fixed inner(4, 100, nullptr), inner1(4, 100, nullptr);
  if (kind == 3) {
    inner.set_string(token(genus::text, 1), v.view());
    inner1.set_varbinary(token(genus::varbin, 2), first.view());
  }
  const tuple_ro_weak nv = inner.take_weak_asis(), nv1 = inner1.take_weak_asis();
  auto put = [&](const blob &b, int8_t id, const tuple_ro_weak &nt) {
    if (scenario == 2) switch (kind) {
      case 0: t.insert_string(tk, b.view()); break;
      case 1: t.insert_varbinary(tk, b.view()); break;
      case 2: t.insert_property(tk, property_pair(b.view(), id)); break;
      case 3: t.insert_nested(tk, nt); break;
      }
    else switch (kind) {
      case 0: t.set_string(tk, b.view()); break;
      case 1: t.set_varbinary(tk, b.view()); break;
      case 2: t.set_property(tk, property_pair(b.view(), id)); break;
      case 3: t.set_nested(tk, nt); break;
      }
  };
  auto empty = [&](const blob &b, int8_t id, const tuple_ro_weak &nt) {
    return !discernible && (kind == 3 ? nt.size() <= 4 : b.n == 0 && (kind < 2 || id == 0));
  };
  if (scenario) put(first, pid1, nv1);
  t.set_string(nb2, string_view("xyz"));
  bool threw = false;
  try {
    put(v, pid, nv);
  } catch (const value_too_long &) {
    threw = true;
  }
  sx_assert(threw == too_long, "exactly the values beyond the documented limits are rejected");
  if (threw) sx_done();
  auto check = [&](auto &&r) {
    sx_assert(r.get_u32(nb1) == 0xC0FFEEu, "a neighbour keeps its value");
    sx_assert(r.get_string(nb2) == string_view("xyz"), "a neighbour keeps its text");
    const bool gone = empty(v, pid, nv), first_gone = empty(first, pid1, nv1);
    if (scenario < 2) {
      sx_assert(r.is_present(tk) == !gone, "presence of the stored field");
      if (gone) {
        switch (kind) {
        case 0: sx_assert(r.get_string(tk).empty(), "an absent text reads as empty"); break;
        case 1: sx_assert(r.get_varbinary(tk).empty(), "an absent binary reads as empty"); break;
        case 2: sx_assert(r.get_property(tk).first.empty() && !r.get_property(tk).second, "an absent property reads as empty"); break;
        case 3: sx_assert(!r.get_nested_weak(tk), "an absent nested tuple reads as empty"); break;
        }
      } else {
        switch (kind) {
        case 0: sx_assert(eq(r.get_string(tk), v), "the text read is the text stored"); break;
        case 1: sx_assert(eq(r.get_varbinary(tk), v), "the binary read is the binary stored"); break;
        case 2: sx_assert(eq(r.get_property(tk).first, v) && r.get_property(tk).second == pid, "the property read is the property stored"); break;
        case 3: {
          const tuple_ro_weak got = r.get_nested_weak(tk);
          sx_assert(got.size() == nv.size() && sx_memeq(got.data(), nv.data(), nv.size()), "the nested tuple read is the nested tuple stored");
          sx_assert(eq(got.get_string(token(genus::text, 1)), v), "a field of the nested tuple is readable");
          break;
        }
        }
      }
    } else {
      unsigned cnt = 0, ok = 0;
      for (auto it : r.collection(tk)) {
        ++cnt;
        switch (kind) {
        case 0: ok += eq(it.get_string(), v) || eq(it.get_string(), first); break;
        case 1: ok += eq(it.get_varbinary(), v) || eq(it.get_varbinary(), first); break;
        case 2: ok += (eq(it.get_property().first, v) && it.get_property().second == pid) || (eq(it.get_property().first, first) && it.get_property().second == pid1); break;
        case 3: {
          const details::tuple_ro *x = it.get_nested();
          ok += (x->size() == nv.size() && sx_memeq(x, nv.data(), nv.size())) || (x->size() == nv1.size() && sx_memeq(x, nv1.data(), nv1.size()));
          break;
        }
        }
      }
      sx_assert(cnt == ok, "a collection holds only inserted values");
      sx_assert(cnt == (unsigned)!gone + (unsigned)!first_gone, "a collection holds all inserted values");
    }
  };
#if FOCUS == 8
  switch (sx_choose(3)) {
  case 0: {
    const tuple_ro_weak w = t.take_weak_asis();
    sx_assert(tuple_ro_weak::validate(w.data(), w.size(), nullptr, false) == nullptr, "the serialized form is valid");
    check(w);
    tuple_rw_fixed again(w.data(), w.size(), 1, 16, nullptr);
    check(again);
    break;
  }
  case 1: {
    tuple_ro_managed m(std::move(t));
    check(m);
    break;
  }
  case 2:
    t.optimize();
    check(t.take_managed_clone_asis());
    break;
  }
#else
  check(t);
  sx_assert(t.validate() == nullptr, "the tuple is consistent");
#endif
  sx_reach("done");
}
