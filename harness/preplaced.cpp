// Preplaced fields: a schema with three of them (the middle one of every type), any value, any history of two steps.
#include "model.h"
#include <memory>
using namespace fptu;
#ifndef GROWING
#define GROWING 0
#endif
#if GROWING
typedef tuple_rw_managed TUPLE;
#else
typedef tuple_rw_fixed TUPLE;
#endif
template <class V> static V mk() { V v; sx_bytes(&v, sizeof v); return v; }
template <> bool mk<bool>() { return sx_u8() & 1; }
template <> mac_address_t mk<mac_address_t>() { mac_address_t m; m.raw64 = sx_u64() & UINT64_C(0xffffFFFFffff); return m; }
template <class V> static int same(const V &a, const V &b) { return sx_memeq(&a, &b, sizeof a); }
struct blob { // a text or binary of up to 9 bytes
  uint8_t n, b[9];
};
template <> blob mk<blob>() { blob v; memset(&v, 0, sizeof v); static const uint8_t len[] = {0, 1, 4, 9}; v.n = len[sx_choose(4)]; sx_bytes(v.b, v.n); return v; }
static string_view sv(const blob &b) { return string_view((const char *)b.b, b.n); }
static blob bl(const string_view &s) { blob r; memset(&r, 0, sizeof r); sx_assert(s.length() <= 9, "the length read is the length stored"); r.n = (uint8_t)s.length(); memcpy(r.b, s.data(), r.n); return r; }

// the reserved value which means "absent" for fields with distinguishable emptiness
template <class V> static bool denil(genus g, const V &v) {
  V d;
  memset((void *)&d, 0, sizeof d);
  if (g == genus::i8 || g == genus::i16 || g == genus::i32 || g == genus::i64) ((uint8_t *)&d)[sizeof d - 1] = 0x80;
  if (g == genus::f32 || g == genus::f64 || g == genus::d64) memset((void *)&d, 255, sizeof d);
  return same(v, d);
}
template <> bool denil<bool>(genus, const bool &) { return false; }
template <class V> static V blank() { V v; memset((void *)&v, 0, sizeof v); return v; }

template <class V, class S, class G> static void run(const genus g, S store, G get) {
  constexpr bool stretchy = sizeof(V) == sizeof(blob) && std::is_same<V, blob>::value;
  const bool discernible = sx_choose(2);
  const bool text_first = sx_choose(2);
  const bool init = !stretchy && sx_choose(2);
  std::unique_ptr<schema> s(schema::create());
  const V initial = init ? mk<V>() : blank<V>();
  const token a = text_first ? s->define_preplaced("a", genus::text) : s->define_preplaced("a", genus::u8);
  uint8_t image[64 + 4] = {0}; // the initial value, padded to whole units as it is stored
  memcpy(image, &initial, sizeof initial);
  const token k = s->define_preplaced("k", g, discernible, false, init ? image : nullptr);
  const token c = s->define_preplaced("c", genus::varbin);
  const token l = s->define_loose("l", genus::text);
  struct { bool present; V v; } m;
  const auto expect = [&](const V &v) {
    m.v = v;
    m.present = stretchy ? discernible || ((const blob &)v).n : !(discernible && denil(g, v));
  };
  const auto expect_nothing = [&] { m.v = blank<V>(); m.present = !stretchy && !discernible; };
  if (init) expect(initial); else expect_nothing();
  const bool tight = sx_choose(2);
  TUPLE t(tight ? 1 : 4, tight ? 8 : 200, s.get());
  const auto attempt = [&](auto f) {
    try { f(); } catch (const insufficient_space &) { sx_assert(!GROWING, "a growing tuple finds the space it lacks"); sx_reach("no_space"); return false; }
    return true;
  };
  const uint8_t av = sx_u8();
  blob at = blank<blob>(), ct = blank<blob>(), lt = blank<blob>();
  bool au = false;
  const auto check = [&](auto &&r) {
    sx_assert(r.is_present(k) == m.present, "presence of a preplaced field");
    bool threw = false;
    V got = blank<V>();
    try { got = get(r, k); } catch (const field_absent &) { threw = true; }
    sx_assert(threw == (!m.present && discernible), "an absent preplaced field is refused or reads as empty, as defined");
    if (!threw) sx_assert(same(got, m.v), "a preplaced field holds the value stored");
    if (text_first) sx_assert(same(bl(r.get_string(a)), at), "a neighbouring preplaced field keeps its value");
    else sx_assert(r.get_u8(a) == (au ? av : 0), "a neighbouring preplaced field keeps its value");
    sx_assert(same(bl(r.get_varbinary(c)), ct), "a neighbouring preplaced field keeps its value");
    sx_assert(r.is_present(c) == (ct.n != 0), "presence of a preplaced field");
    sx_assert(same(bl(r.get_string(l)), lt), "a loose field keeps its value");
    if (text_first) sx_assert(r.is_present(a) == (at.n != 0), "presence of a preplaced field");
  };
  const auto iterate = [&](const tuple_ro_weak &w) {
    const token *want[4];
    unsigned n = 0, holes = 0;
    if (!text_first || at.n) want[n++] = &a;
    if (m.present) want[n++] = &k;
    if (ct.n) want[n++] = &c;
    const unsigned preplaced = n;
    if (lt.n) want[n++] = &l;
    const auto begin = w.cbegin(s.get()), end = w.cend(s.get());
    unsigned i = 0;
    for (auto it = begin; it != end; ++it) {
      if (it.field_type() == genus::hole) { ++holes; continue; }
      sx_assert(i < n, "iteration visits no more than the fields present");
      sx_assert(it.field_token() == *want[i] && it == *want[i] && it->type() == want[i]->type() && it->is_preplaced() == (i < preplaced), "iteration visits fields in the order of definition");
      ++i;
    }
    sx_assert(i == n, "iteration visits every field present");
    for (auto it = end; it != begin;) {
      --it;
      if (it.field_type() == genus::hole) continue;
      sx_assert(i > 0 && it == *want[i - 1], "backward iteration visits the same fields in the reverse order");
      --i;
    }
    sx_assert(i == 0, "backward iteration visits every field present");
    sx_reach("iterated");
  };
  const auto forms = [&](unsigned how) {
    switch (how) {
    case 0: {
      const tuple_ro_weak w = t.take_weak_asis();
      if (!stretchy) {
        const uint8_t *raw = (const uint8_t *)w.data() + 4 + 4 * w.index_size() + k.preplaced_offset();
        if (m.present) sx_assert(sx_memeq(raw, &m.v, sizeof(V)), "a preplaced field lies at its place in the serialized form");
      }
      sx_assert(w.validate(s.get()) == nullptr, "the serialized form is valid for the schema");
      check(w);
      iterate(w);
      break;
    }
    case 1: {
      const tuple_ro_weak w = t.take_weak_asis();
      uint8_t *copy = (uint8_t *)malloc(w.size());
      memcpy(copy, w.data(), w.size());
      TUPLE again(copy, w.size(), 1, 16, s.get());
      free(copy);
      check(again);
      again.set_string(l, string_view("zz"));
      lt.n = 2; memset(lt.b, 'z', 2);
      check(again);
      break;
    }
    case 2: { TUPLE x = TUPLE::clone(t); t.purge(); check(x); break; }
    case 3: { tuple_ro_managed x(std::move(t)); check(x); TUPLE y(std::move(x)); check(y); break; }
    }
  };
  check(t);
  // the first step: fill everything or nothing
  if (sx_choose(2)) {
    if (!text_first) { t.set_u8(a, av); au = true; }
    else if (attempt([&] { t.set_string(a, string_view("aaaaaa")); })) { at.n = 6; memset(at.b, 'a', 6); }
    const V v = mk<V>();
    if (attempt([&] { store(t, k, v); })) expect(v);
    if (attempt([&] { t.set_varbinary(c, string_view("ccc")); })) { ct.n = 3; memset(ct.b, 'c', 3); }
    if (attempt([&] { t.set_string(l, string_view("l")); })) { lt.n = 1; lt.b[0] = 'l'; }
    check(t);
  }
  for (unsigned step = 0; step < SX_BOUND(2, 3); ++step)
  switch (sx_choose(6)) {
  case 0: {
    bool r = false;
    if (attempt([&] { r = t.erase(k); })) {
      sx_assert(r == m.present, "removal tells whether there was something");
      expect_nothing();
    }
    break;
  }
  case 1: { const V v = mk<V>(); if (attempt([&] { store(t, k, v); })) expect(v); break; }
  case 2:
    if (text_first && attempt([&] { t.erase(a); })) at = blank<blob>();
    if (attempt([&] { t.set_varbinary(c, string_view("ddddddddd")); })) { ct.n = 9; memset(ct.b, 'd', 9); }
    break;
  case 3: if (attempt([&] { t.erase(c); })) ct = blank<blob>(); t.compactify(); break;
  case 4: if (attempt([&] { t.erase(l); })) lt = blank<blob>(); t.optimize(); break;
  case 5:
    t.reset();
    at = ct = lt = blank<blob>();
    au = false;
    if (init) expect(initial); else expect_nothing();
    break;
  }
  check(t);
  sx_assert(t.validate() == nullptr, "the tuple is consistent");
  forms(sx_choose(4));
  sx_reach("done");
}
#define TYPE(V, G, SET)                                                                                               \
  run<V>(genus::G, [](auto &t, const token &k, const V &v) { t.set_##SET(k, v); }, [](const auto &t, const token &k) { const V r = t.get_##SET(k); return r; }); \
  return
#define BLOB(G, SET)                                                                                               \
  run<blob>(genus::G, [](auto &t, const token &k, const blob &v) { t.set_##SET(k, sv(v)); }, [](const auto &t, const token &k) { return bl(t.get_##SET(k)); }); \
  return
void sx_main() {
  switch (sx_choose(28)) {
  case 0: TYPE(bool, boolean, bool);
  case 1: TYPE(short, enumeration, enum);
  case 2: TYPE(int8_t, i8, i8);
  case 3: TYPE(uint8_t, u8, u8);
  case 4: TYPE(int16_t, i16, i16);
  case 5: TYPE(uint16_t, u16, u16);
  case 6: TYPE(int32_t, i32, i32);
  case 7: TYPE(uint32_t, u32, u32);
  case 8: TYPE(int64_t, i64, i64);
  case 9: TYPE(uint64_t, u64, u64);
  case 10: TYPE(float, f32, f32);
  case 11: TYPE(double, f64, f64);
  case 12: TYPE(datetime_t, t64, datetime);
  case 13: TYPE(uuid_t, bin128, uuid);
  case 14: TYPE(binary96_t, bin96, bin96);
  case 15: TYPE(binary128_t, bin128, bin128);
  case 16: TYPE(binary160_t, bin160, bin160);
  case 17: TYPE(binary192_t, bin192, bin192);
  case 18: TYPE(binary224_t, bin224, bin224);
  case 19: TYPE(binary256_t, bin256, bin256);
  case 20: TYPE(binary320_t, bin320, bin320);
  case 21: TYPE(binary384_t, bin384, bin384);
  case 22: TYPE(binary512_t, bin512, bin512);
  case 23: TYPE(ip_address_t, ip, ip_address);
  case 24: TYPE(mac_address_t, mac, mac_address);
  case 25: TYPE(ip_net_t, ipnet, ip_net);
  case 26: BLOB(text, string);
  case 27: BLOB(varbin, varbinary);
  }
}
