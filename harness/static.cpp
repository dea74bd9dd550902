// Fields described at compile time as members of a C structure and at run time by a schema: both see and change the same.
#include "model.h"
#include <cstddef>
#include <memory>
using namespace fptu;
template <class V> static V mk() { V v; sx_bytes(&v, sizeof v); return v; }
template <> bool mk<bool>() { return sx_u8() & 1; }
template <> mac_address_t mk<mac_address_t>() { mac_address_t m; m.raw64 = sx_u64() & UINT64_C(0xffffFFFFffff); return m; }
template <class V> static int same(const V &a, const V &b) { return sx_memeq(&a, &b, sizeof a); }
template <class V> static V blank() { V v; memset((void *)&v, 0, sizeof v); return v; }
struct blob { uint8_t n, b[9]; };
template <> blob mk<blob>() { blob v = blank<blob>(); static const uint8_t len[] = {0, 1, 4, 9}; v.n = len[sx_choose(4)]; sx_bytes(v.b, v.n); return v; }
static string_view sv(const blob &b) { return string_view((const char *)b.b, b.n); }
static blob bl(const string_view &s) { blob r = blank<blob>(); sx_assert(s.length() <= 9, "the length read is the length stored"); r.n = (uint8_t)s.length(); memcpy(r.b, s.data(), r.n); return r; }
struct prop { uint8_t n, id, b[4]; };
template <> prop mk<prop>() { prop v = blank<prop>(); v.n = sx_choose(5); v.id = sx_u8(); sx_bytes(v.b, v.n); return v; }
static property_pair pp(const prop &p) { return property_pair(string_view((const char *)p.b, p.n), p.id); }
static prop pr(const property_pair &p) { prop r = blank<prop>(); sx_assert(p.first.length() <= 4, "the length read is the length stored"); r.n = (uint8_t)p.first.length(); memcpy(r.b, p.first.data(), r.n); r.id = uint8_t(p.second); return r; }
struct inner { uint8_t present; uint32_t v; };
template <> inner mk<inner>() { inner r = blank<inner>(); r.present = 1; r.v = sx_u32(); return r; }
static inner in(const tuple_ro_weak &w) {
  inner r = blank<inner>();
  if (w && w.index_size()) { r.present = 1; r.v = w.get_u32(token(genus::u32, 5)); }
  return r;
}
static void put_inner(uint8_t *w, const inner &v) {
  static const uint8_t head[8] = {3, 0, 8, 0, 1, 0, 5, 9 << 3};
  memcpy(w, head, 8);
  memcpy(w + 8, &v.v, 4);
}


struct Foo {
  uint64_t u64; preplaced_string text; int64_t i64; double f64; preplaced_varbin bin; datetime_t t64; uint32_t u32; int32_t i32; preplaced_property prop;
  float f32; uint16_t u16; preplaced_nested nested; int16_t i16; uint8_t u8; int8_t i8; bool flag; uint8_t pad; mac_address_t mac; ip_address_t ip;
  uuid_t uuid; binary96_t b96; binary128_t b128; binary160_t b160; binary192_t b192; binary224_t b224; binary256_t b256; binary320_t b320; binary384_t b384; binary512_t b512;
};

#define MEMBERS(X) X(u64) X(text) X(i64) X(f64) X(bin) X(t64) X(u32) X(i32) X(prop) X(f32) X(u16) X(nested) X(i16) X(u8) X(i8) X(flag) X(mac) X(ip) X(uuid) X(b96) X(b128) X(b160) X(b192) X(b224) X(b256) X(b320) X(b384) X(b512)
#define X(M)                                                                                                                   \
  typedef FPTU_TOKEN(Foo, M) tk_##M;                                                                                           \
  typedef details::token_native<Foo, decltype(Foo::M), &Foo::M, offsetof(Foo, M), true> tkd_##M;
MEMBERS(X)
#undef X

template <class V, class TUP, class TK, class S, class G, class P> static void run(TK st, S store, G get, P view) {
  constexpr bool stretchy = std::is_same<V, blob>::value || std::is_same<V, prop>::value || std::is_same<V, inner>::value;
  constexpr bool nested = std::is_same<V, inner>::value;
  std::unique_ptr<schema> s(schema::create());
#define X(M) { const token x = token(tk_##M()); const token y = s->import_definition(#M, x.preplaced_offset() == st.preplaced_offset() ? token(st) : x); sx_assert(y.preplaced_offset() == offsetof(Foo, M), "a member of a structure keeps its place in a schema"); }
  MEMBERS(X)
#undef X
  const token dyn(st);
  sx_assert(dyn.type() == st.type() && dyn.is_preplaced() && dyn.is_discernible_null() == st.is_discernible_null(), "a token made of a member keeps its nature");
  const bool discernible = st.is_discernible_null();
  TUP t(2, 40, s.get());
  V now = blank<V>();
  bool present = !stretchy && !discernible;
  const uint64_t first = sx_u64(), last = sx_u64();
  t.set_u64(tk_u64(), first);
  binary512_t tail = blank<binary512_t>();
  memcpy(&tail, &last, 8);
  t.set_bin512(token(tk_b512()), tail);
  const auto absent = [&](const V &v) {
    if (stretchy) return nested ? !((const inner &)v).present : !discernible && !((const blob &)v).n && (std::is_same<V, blob>::value || !((const prop &)v).id);
    if (std::is_same<V, bool>::value || !discernible) return false;
    V d = blank<V>();
    const genus g = st.type();
    if (g == genus::i8 || g == genus::i16 || g == genus::i32 || g == genus::i64) ((uint8_t *)&d)[sizeof d - 1] = 0x80;
    if (g == genus::f32 || g == genus::f64) memset((void *)&d, 255, sizeof d);
    return same(v, d) != 0;
  };
  const auto check = [&](auto &&r) {
    bool threw = false;
    V a = blank<V>(), b = a;
    sx_assert(r.is_present(st) == present && r.is_present(dyn) == present, "presence is the same for both kinds of access");
    try { a = get(r, st); } catch (const field_absent &) { threw = true; }
    sx_assert(threw == (discernible && !present), "an absent member is refused or reads as empty, as described");
    if (!threw) sx_assert(same(a, now), "a member holds the value stored");
    threw = false;
    try { b = get(r, dyn); } catch (const field_absent &) { threw = true; }
    sx_assert(threw == (discernible && !present), "an absent field is refused or reads as empty, as described");
    if (!threw) sx_assert(same(b, now), "a field holds the value stored to the member");
    sx_assert(r.get_u64(token(tk_u64())) == first && same(r.get_bin512(tk_b512()), tail), "other members keep their values");
  };
  for (unsigned step = 0; step < 2; ++step) {
    if (sx_choose(step ? 2 : 1) == 0) {
      const V v = mk<V>();
      if (sx_choose(2)) store(t, st, v); else store(t, dyn, v);
      present = !absent(v);
      now = present ? v : blank<V>();
    } else {
      const bool was = sx_choose(2) ? t.erase(st) : t.erase(dyn);
      sx_assert(was == present, "removal tells whether there was something");
      present = !stretchy && !discernible;
      now = blank<V>();
    }
    check(t);
  }
  sx_assert(t.validate() == nullptr, "the tuple is consistent");
  const tuple_ro_weak w = t.take_weak().first;
  sx_assert(w.validate(s.get()) == nullptr, "the serialized form is valid for the schema");
  check(w);
  const Foo *foo = (const Foo *)((const uint8_t *)w.data() + 4 + 4 * w.index_size());
  if (present) sx_assert(same(view(*foo), now), "the structure inside the serialized form shows the value");
  if (stretchy && !present) {
    bool threw = false;
    try { view(*foo); } catch (const field_absent &) { threw = true; }
    sx_assert(threw, "the structure inside the serialized form shows the absence");
  }
  const tuple_ro_managed m = t.take_managed_clone_asis();
  check(m);
  sx_reach("done");
}
#define TYPE(V, M, SET)                                                                                               \
  if (which == n++) {                                                                                                 \
    const auto store = [](auto &t, const auto &k, const V &v) { t.set_##SET(k, v); };                                   \
    const auto get = [](const auto &t, const auto &k) { const V r = t.get_##SET(k); return r; };                        \
    const auto view = [](const Foo &f) { V r; memcpy((void *)&r, &f.M, sizeof r); return r; };                                    \
    if (discernible) run<V, TUPLE>(tkd_##M(), store, get, view); else run<V, TUPLE>(tk_##M(), store, get, view);      \
  }
#define BLOB(V, M, SET, TO, FROM)                                                                                         \
  if (which == n++) {                                                                                                 \
    const auto store = [](auto &t, const auto &k, const V &v) { t.set_##SET(k, TO(v)); };                               \
    const auto get = [](const auto &t, const auto &k) { return FROM(t.get_##SET(k)); };                                 \
    const auto view = [](const Foo &f) { return FROM(f.M.value()); };                                                     \
    if (discernible) run<V, TUPLE>(tkd_##M(), store, get, view); else run<V, TUPLE>(tk_##M(), store, get, view);      \
  }
void sx_main() {
  const unsigned which = sx_choose(28);
  const bool discernible = sx_choose(2);
  unsigned n = 0;
  TYPE(bool, flag, bool)
  TYPE(int8_t, i8, i8)
  TYPE(uint8_t, u8, u8)
  TYPE(int16_t, i16, i16)
  TYPE(uint16_t, u16, u16)
  TYPE(int32_t, i32, i32)
  TYPE(uint32_t, u32, u32)
  TYPE(int64_t, i64, i64)
  TYPE(uint32_t, u32, u32)
  TYPE(float, f32, f32)
  TYPE(double, f64, f64)
  TYPE(datetime_t, t64, datetime)
  TYPE(mac_address_t, mac, mac_address)
  TYPE(ip_address_t, ip, ip_address)
  TYPE(uuid_t, uuid, uuid)
  TYPE(binary96_t, b96, bin96)
  TYPE(binary128_t, b128, bin128)
  TYPE(binary160_t, b160, bin160)
  TYPE(binary192_t, b192, bin192)
  TYPE(binary224_t, b224, bin224)
  TYPE(binary256_t, b256, bin256)
  TYPE(binary320_t, b320, bin320)
  TYPE(binary384_t, b384, bin384)
  BLOB(blob, text, string, sv, bl)
  if (which == n++) {
    const auto store = [](auto &t, const auto &k, const blob &v) { t.set_varbinary(k, sv(v)); };
    const auto get = [](const auto &t, const auto &k) { return bl(t.get_varbinary(k)); };
    const auto view = [](const Foo &f) { return bl(string_view(f.bin.value())); };
    if (discernible) run<blob, TUPLE>(tkd_bin(), store, get, view); else run<blob, TUPLE>(tk_bin(), store, get, view);
  }
  BLOB(prop, prop, property, pp, pr)
  if (which == n++) {
    const auto store = [](auto &t, const auto &k, const inner &v) { uint8_t w[12]; put_inner(w, v); t.set_nested(k, tuple_ro_weak(w, 12, nullptr)); };
    const auto get = [](const auto &t, const auto &k) { return in(t.get_nested_weak(k)); };
    const auto view = [](const Foo &f) { return in(f.nested.value()); };
    if (discernible) run<inner, TUPLE>(tkd_nested(), store, get, view); else run<inner, TUPLE>(tk_nested(), store, get, view);
  }
}
