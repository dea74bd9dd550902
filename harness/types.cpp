// Every field type: what is stored is what is read back.
// FOCUS 4: through the modifiable tuple; FOCUS 8: through every serialized / cloned / moved form of it;
// FOCUS 15: same for preplaced fields (see preplaced.cpp); FOCUS 10: a tuple which grows on demand
#include "model.h"
using namespace fptu;
#ifndef FOCUS
#define FOCUS 4
#endif

template <class V> static V mk() {
  V v;
  sx_bytes(&v, sizeof v);
  return v;
}
template <> bool mk<bool>() { return sx_u8() & 1; }
template <> mac_address_t mk<mac_address_t>() {
  mac_address_t m;
  m.raw64 = sx_u64() & UINT64_C(0xffffFFFFffff);
  return m;
}
template <class V> static int zero(const V &v) {
  static const uint8_t z[sizeof(V)] = {};
  return sx_memeq(&v, z, sizeof v);
}
template <> int zero<float>(const float &v) { uint32_t u; memcpy(&u, &v, 4); return (u << 1) == 0; }
template <> int zero<double>(const double &v) { uint64_t u; memcpy(&u, &v, 8); return (u << 1) == 0; }
template <class V> static int same(const V &a, const V &b) { return sx_memeq(&a, &b, sizeof a); }

#if FOCUS == 10
using tuple_t = tuple_rw_managed;
#else
using tuple_t = tuple_rw_fixed;
#endif

// V: the value type; S/I/G: how to store, insert and get
template <class V, class S, class I, class A, class G>
static void run(const genus g, S store, I insert, A get_from, G get) {
  const unsigned scenario = sx_choose(3); // fresh, overwrite, collection
  const bool discernible = g == genus::d64 ? true : sx_choose(2);
  const unsigned id = sx_u16();
  sx_assume((id < 2048) & (id != 100) & (id != 101) & (id != 102));
#if FOCUS == 10
  tuple_rw_managed t(sx_choose(2), sx_choose(2) * 4, nullptr);
#else
  tuple_rw_fixed t(6, 240, nullptr);
#endif
  const token n1(genus::u32, 100), n2(genus::text, 101);
  const uint32_t nv = sx_u32();
  sx_assume(nv != 0);
  t.set_u32(n1, nv);
  const token tk(g, id, scenario == 2, discernible);
  const V first = mk<V>(), v = mk<V>();
  bool gone = false;
  if (scenario == 0) {
    store(t, tk, v);
    t.set_string(n2, string_view("abc"));
  } else if (scenario == 1) {
    store(t, tk, first);
    t.set_string(n2, string_view("abc"));
    store(t, tk, v);
  } else {
    insert(t, tk, first);
    t.set_string(n2, string_view("abc"));
    insert(t, tk, v);
  }
  gone = !discernible && zero(v);
  const bool first_gone = !discernible && zero(first);
  // reading
  auto check = [&](auto &&r) {
    sx_assert(r.get_u32(n1) == nv, "a neighbour keeps its value");
    sx_assert(r.get_string(n2) == string_view("abc"), "a neighbour keeps its text");
    if (scenario < 2) {
      sx_assert(r.is_present(tk) == !gone, "presence of the stored field");
      if (!gone) {
        sx_assert(same<V>(get(r, tk), v), "the value read is the value stored");
      } else
        sx_assert(zero<V>(get(r, tk)), "an absent field reads as empty");
    } else {
      unsigned n = 0;
      bool seen_first = false, seen_v = false;
      for (auto it : r.collection(tk)) {
        const V x = get_from(it);
        sx_assert(same<V>(x, v) | same<V>(x, first), "a collection holds only inserted values");
        seen_first |= !!same<V>(x, first);
        seen_v |= !!same<V>(x, v);
        ++n;
      }
      sx_assert(n == (unsigned)!gone + (unsigned)!first_gone, "a collection holds all inserted values");
      if (!gone) sx_assert(seen_v, "the inserted value is in the collection");
      if (!first_gone) sx_assert(seen_first, "the value inserted earlier is in the collection");
    }
  };
#if FOCUS == 4 || FOCUS == 10
  check(t);
  sx_assert(t.validate() == nullptr, "the tuple is consistent");
#endif
#if FOCUS == 8
  switch (sx_choose(6)) {
  case 0: check(t.take_weak_asis()); break;
  case 1: check(t.take_managed_clone_asis()); break;
  case 2: {
    const tuple_ro_weak w = t.take_weak_asis();
    const size_t size = w.size();
    uint8_t *copy = (uint8_t *)malloc(size);
    memcpy(copy, w.data(), size);
    t.purge();
    const tuple_ro_weak r(copy, size, nullptr);
    check(r);
    tuple_rw_fixed again(copy, size, 1, 16, nullptr);
    free(copy);
    check(again);
    again.set_u32(token(genus::u32, 102), 1);
    check(again);
    break;
  }
  case 3: {
    tuple_rw_fixed c = tuple_rw_fixed::clone(t);
    t.purge();
    check(c);
    break;
  }
  case 4: {
    tuple_ro_managed m(std::move(t));
    check(m);
    const tuple_ro_managed m2 = m; // shared
    tuple_rw_fixed back(std::move(m));
    check(back);
    check(m2);
    break;
  }
  case 5: {
    t.optimize();
    const tuple_ro_managed m = tuple_ro_managed::clone(t.take_weak_asis());
    t.purge();
    check(m);
    break;
  }
  }
#endif
  sx_reach("done");
}

#define TYPE(V, G, SET, GET)                                                                                           \
  run<V>(genus::G, [](auto &t, const token &k, const V &v) { t.set_##SET(k, v); },                                     \
         [](auto &t, const token &k, const V &v) { t.insert_##SET(k, v); },                                            \
         [](const auto &a) { const V r = a.get_##GET(); return r; },                                         \
         [](const auto &t, const token &k) { const V r = t.get_##GET(k); return r; });                                               \
  return

void sx_main() {
  switch (sx_choose(29)) {
  case 0: TYPE(bool, boolean, bool, bool);
  case 1: TYPE(short, enumeration, enum, enum);
  case 2: TYPE(int8_t, i8, i8, i8);
  case 3: TYPE(uint8_t, u8, u8, u8);
  case 4: TYPE(int16_t, i16, i16, i16);
  case 5: TYPE(uint16_t, u16, u16, u16);
  case 6: TYPE(int32_t, i32, i32, i32);
  case 7: TYPE(uint32_t, u32, u32, u32);
  case 8: TYPE(int64_t, i64, i64, i64);
  case 9: TYPE(uint64_t, u64, u64, u64);
  case 10: TYPE(float, f32, f32, f32);
  case 11: TYPE(double, f64, f64, f64);
  case 12: TYPE(decimal64, d64, decimal, decimal);
  case 13: TYPE(datetime_t, t64, datetime, datetime);
  case 14: TYPE(uuid_t, bin128, uuid, uuid);
  case 15: TYPE(binary96_t, bin96, bin96, bin96);
  case 16: TYPE(binary128_t, bin128, bin128, bin128);
  case 17: TYPE(binary160_t, bin160, bin160, bin160);
  case 18: TYPE(binary192_t, bin192, bin192, bin192);
  case 19: TYPE(binary224_t, bin224, bin224, bin224);
  case 20: TYPE(binary256_t, bin256, bin256, bin256);
  case 21: TYPE(binary320_t, bin320, bin320, bin320);
  case 22: TYPE(binary384_t, bin384, bin384, bin384);
  case 23: TYPE(binary512_t, bin512, bin512, bin512);
  case 24: TYPE(ip_address_t, ip, ip_address, ip_address);
  case 25: TYPE(mac_address_t, mac, mac_address, mac_address);
  case 26: TYPE(ip_net_t, ipnet, ip_net, ip_net);
  case 27: TYPE(int128_t, bin128, int128, int128);
  case 28: TYPE(uint128_t, bin128, uint128, uint128);
  }
}
