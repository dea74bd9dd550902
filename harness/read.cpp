// Reading of any accepted tuple: getters, presence, collections and iteration against the reference model.
#include "model.h"
using namespace fptu;
static const unsigned G_ALL[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30};

static int bytes_eq(const void *p, size_t n, const model::item &x) { return n == x.nb && sx_memeq(p, x.b, n); }
template <class V> static int val_eq(const V &v, const model::item &x) { return bytes_eq(&v, sizeof v, x); }
#define ALL_GETTERS(SRC, ARG, NESTED)                                                                                          \
  switch (g) {                                                                                                         \
  case 0: { const string_view v = SRC.get_string(ARG); return x.nb == 0xFFFF ? v.empty() : bytes_eq(v.data(), v.size(), x); }             \
  case 1: { const string_view v = SRC.get_varbinary(ARG); return x.nb == 0xFFFF ? v.empty() : bytes_eq(v.data(), v.size(), x); }          \
  case 2: { NESTED; return x.nb == 0xFFFF ? p == nullptr : p && bytes_eq(p, n, x); }          \
  case 3: { const property_pair v = SRC.get_property(ARG);                                                             \
    if (x.nb == 0xFFFF) return v.first.size() == 0;                                                                           \
    return v.first.size() + 1 == x.nb && uint8_t(v.second) == x.b[0] && sx_memeq(v.first.data(), x.b + 1, x.nb - 1); }                 \
  case 4: return val_eq<int8_t>(SRC.get_i8(ARG), x) & (SRC.get_bool(ARG) == (x.b[0] != 0));                            \
  case 5: return val_eq<uint8_t>(SRC.get_u8(ARG), x) & (SRC.get_unsigned(ARG) == x.b[0]);                                                                    \
  case 6: return val_eq<int16_t>(SRC.get_i16(ARG), x) & val_eq<short>(SRC.get_enum(ARG), x) & (SRC.get_integer(ARG) == (int16_t)model::rd16(x.b));                                 \
  case 7: return val_eq<uint16_t>(SRC.get_u16(ARG), x);                                                                  \
  case 8: return val_eq<int32_t>(SRC.get_i32(ARG), x);                                                                   \
  case 9: return val_eq<uint32_t>(SRC.get_u32(ARG), x);                                                                  \
  case 10: return val_eq<float>(SRC.get_f32(ARG), x);                                                                    \
  case 11: { uint32_t sec; memcpy(&sec, x.b, 4); return SRC.get_datetime(ARG).fixedpoint_32dot32() == (uint64_t)sec << 32; }                                                                    \
  case 12: return val_eq<int64_t>(SRC.get_i64(ARG), x);                                                                  \
  case 13: return val_eq<uint64_t>(SRC.get_u64(ARG), x);                                                                 \
  case 14: return val_eq<double>(SRC.get_f64(ARG), x);                                                                   \
  case 15: return 1;                                                                                                   \
  case 16: return val_eq<uint64_t>(SRC.get_datetime(ARG).fixedpoint_32dot32(), x);                                               \
  case 17: return val_eq<binary96_t>(SRC.get_bin96(ARG), x);                                                             \
  case 18: return val_eq<binary128_t>(SRC.get_bin128(ARG), x) & val_eq<uuid_t>(SRC.get_uuid(ARG), x);                    \
  case 19: return val_eq<binary160_t>(SRC.get_bin160(ARG), x);                                                           \
  case 20: return val_eq<binary192_t>(SRC.get_bin192(ARG), x);                                                           \
  case 21: return val_eq<binary224_t>(SRC.get_bin224(ARG), x);                                                           \
  case 22: return val_eq<binary256_t>(SRC.get_bin256(ARG), x);                                                           \
  case 23: return val_eq<binary320_t>(SRC.get_bin320(ARG), x);                                                           \
  case 24: return val_eq<binary384_t>(SRC.get_bin384(ARG), x);                                                           \
  case 25: return val_eq<binary512_t>(SRC.get_bin512(ARG), x);                                                           \
  case 28: return val_eq<mac_address_t>(SRC.get_mac_address(ARG), x);                                                    \
  case 29: return val_eq<ip_address_t>(SRC.get_ip_address(ARG), x);                                                      \
  case 30: return sx_memeq(&SRC.get_ip_net(ARG), x.b, 17);                                                               \
  }                                                                                                                    \
  return 1
static int acc_eq(unsigned g, const dynamic_accessor_ro &a, const model::item &x) { ALL_GETTERS(a, , const auto *v = a.get_nested(); const void *p = v; size_t n = v ? v->size() : 0); }
template <class T> static int get_eq(unsigned g, const T &t, const token &k, const model::item &x) { ALL_GETTERS(t, k, const auto v = t.get_nested_weak(k); const void *p = v ? v.data() : nullptr; size_t n = p ? v.size() : 0); }

static model::content c;
static volatile uint64_t sink; // pure functions are called for their result only

template <class T> static void check_reader(const T &r) {
  // getters by token, presence
  const unsigned gi = sx_choose(31);
  const unsigned g = G_ALL[gi];
  const uint16_t id = sx_u16();
  sx_assume(id < 2048);
  const uint16_t tag = uint16_t(g << 11 | id);
  const token one(genus(g), id, false, false), many(genus(g), id, true, false);
  const bool present = r.is_present(one);
  sx_assert(present == (model::count_tag(c, tag) > 0), "a field is reported as present exactly when it is there");
  sx_assert(r.is_present(many) == present, "a collection is non-empty exactly when an item is there");
  if (present) {
    sx_reach("present");
    int ok = 0;
    for (unsigned i = 0; i < c.n; ++i)
      if (unsigned(c.it[i].tag >> 11) == g) ok |= (c.it[i].tag == tag) & get_eq(g, r, one, c.it[i]);
    sx_assert(ok, "a getter returns the value of the field");
    if (g == 15) sx_observe(1);
  }
  if (g == 9 || g == 0) { // refusals
    const token strict(genus(g), id, false, true);
    bool absent = false, mismatch = false, unallowed = false, required = false;
    try {
      if (g) sink = r.get_u32(strict); else sink = r.get_string(strict).size();
    } catch (const field_absent &) { absent = true; }
    unsigned nopayload = 0;
    for (unsigned i = 0; i < c.n; ++i) nopayload += (c.it[i].tag == tag) & (c.it[i].nb == 0xFFFF);
    if (!nopayload) sx_assert(absent == !present, "an absent field is reported where absence is discernible, and only then");
    if (!present) sx_assert(g ? r.get_u32(one) == 0 : r.get_string(one).empty(), "an absent field reads as empty where absence is not discernible");
    try { sink = r.get_i64(one); } catch (const type_mismatch &) { mismatch = true; }
    try { sink = r.get_u32(token(genus::u32, id, true)); } catch (const collection_unallowed &) { unallowed = true; }
    try { sink = r.collection(one).empty(); } catch (const collection_required &) { required = true; }
    sx_assert(mismatch & unallowed & required, "reading by a wrong type or kind of token is refused");
  }
  // the collection holds all the items, each once, in the order of the index
  unsigned at = 0, n = 0;
  for (const auto &a : r.collection(many)) {
    while (at < c.n && c.it[at].tag != tag) ++at;
    sx_assert(at < c.n, "a collection holds no more items than there are");
    sx_assert(acc_eq(g, a, c.it[at]), "a collection gives the values of its items");
    ++at, ++n;
  }
  sx_assert(n == model::count_tag(c, tag), "a collection gives all its items");
}

template <class T> static void check_iteration(const T &r, unsigned idx, const uint8_t *w) {
  const auto b = r.cbegin_loose(), e = r.cend_loose();
  sx_assert(unsigned(e - b) == idx && (b == e) == (idx == 0), "the distance between the ends of iteration is the number of descriptors");
  unsigned i = 0, m = c.n;
  for (auto it = b; it != e; ++it, ++i) {
    const uint8_t *d = w + 4 * (idx - i);
    const uint16_t tag = model::rd16(d + 2);
    sx_assert((unsigned(it.field_type()) == unsigned(tag >> 11)) & (it.field_id() == (tag & 2047u)), "iteration visits the descriptors one by one");
    sx_assert(b + i == it && it - i == b && e - (idx - i) == it && b <= it && it < e && it - b == (ptrdiff_t)i, "iterator arithmetic");
    const unsigned g = (unsigned)sx_concretize(tag >> 11);
    if (g == 31) continue;
    --m;
    sx_assert(acc_eq(g, *it, c.it[m]) & acc_eq(g, b[i], c.it[m]), "iteration gives the value of the field");
    const token tk(genus(g), tag & 2047u);
    sx_assert(it == tk, "an iterator equals the token of its field");
  }
  sx_assert(i == idx && m == 0, "iteration visits all descriptors");
  for (auto it = e; it != b;) {
    --it, --i;
    sx_assert(b + i == it, "iteration backwards retraces the way");
  }
  sx_assert(i == 0, "iteration backwards visits all descriptors");
  for (auto it = b; it != e; ++i) {
    const auto before = it++;
    sx_assert(before == b + i && it == b + (i + 1), "postfix increment returns the previous position and advances");
  }
  for (auto it = e; it != b; --i) {
    const auto before = it--;
    sx_assert(before == b + i && it == b + (i - 1), "postfix decrement returns the previous position and steps back");
  }
  // the universal iterator, without a schema
  const auto fb = r.cbegin(nullptr), fe = r.cend(nullptr);
  auto loose = b;
  for (auto it = fb; it != fe; ++it, ++loose) {
    sx_assert(it == loose && it.field_type() == loose.field_type() && fb <= it && it < fe, "field iteration without a schema is iteration of the index");
    const unsigned g = (unsigned)it.field_type();
    if (g != 31) {
      const uint16_t tag = model::rd16(w + 4 * (idx - (loose - b)) + 2);
      sx_assert(it == token(genus(g), tag & 2047u), "a field iterator equals the token of its field");
    }
  }
  sx_assert(loose == e, "field iteration visits everything");
  for (auto it = fe; it != fb;) {
    --it, --loose;
    sx_assert(it == loose, "field iteration backwards retraces the way");
  }
  for (auto it = fb; it != fe;) {
    const auto was = it, before = it++;
    sx_assert(before == was && it != was, "postfix increment of a field iterator");
    const auto again = it--;
    sx_assert(it == was && again != was, "postfix decrement of a field iterator");
    ++it;
  }
}

void sx_main() {
#if GEN == 0
  const unsigned units = 1 + sx_choose(SX_BOUND(3, 4));
  uint8_t *p = (uint8_t *)malloc(units * 4);
  sx_bytes(p, units * 4);
#else
  // n descriptors of any types with values of any bytes, payloads in order or in reverse order
  const unsigned n = 1 + sx_choose(SX_BOUND(3, 3));
  unsigned g[3], len[3], total = 0;
  static const unsigned kinds[] = {0, 1, 2, 3, 4, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 28, 29, 30};
  static const unsigned few[] = {0, 1, 5, 7, 9, 18, 31};
  for (unsigned i = 0; i < n; ++i) {
    g[i] = i ? few[sx_choose(7)] : kinds[sx_choose(26)];
    len[i] = g[i] == 31 ? 1 : g[i] >= 4 && g[i] < 8 ? 0 : g[i] >= 8 ? (model::fixed_bytes(g[i]) + 3) / 4 : 3;
    total += len[i];
  }
  const unsigned units = 1 + n + total;
  uint8_t *p = (uint8_t *)malloc(units * 4);
  sx_bytes(p, units * 4);
  p[0] = uint8_t(units), p[1] = 0, p[2] = uint8_t(n << 3), p[3] = 0;
  unsigned at = 1 + n;
  const bool reverse = sx_choose(2);
  for (unsigned k = 0; k < n; ++k) {
    const unsigned i = reverse ? n - 1 - k : k;
    uint8_t *d = p + 4 + 4 * i;
    const unsigned id = g[i] == 31 ? 1 : sx_u16() & 2047;
    d[2] = uint8_t(id), d[3] = uint8_t(g[i] << 3 | id >> 8);
    if (len[i]) d[0] = uint8_t(at - 1 - i), d[1] = 0;
    at += len[i];
  }
#endif
  tuple_ro_weak r;
  if (tuple_ro_weak::validate(p, units * 4, nullptr) != nullptr) return;
  r = tuple_ro_weak(p, units * 4, nullptr);
  model::snap(p, 0, c);
  // an empty text with non-zero padding is reserved for a reference into a string pool, which is not implemented
  int pooled = 0;
  for (unsigned i = 0; i < unsigned((p[2] | p[3] << 8) >> 3); ++i) {
    const uint8_t *d = p + 4 + 4 * i;
    if ((d[3] >> 3) == 0 && (d[0] | d[1])) {
      const uint8_t *t = d + 4 * sx_concretize(model::rd16(d));
      pooled |= (t[0] == 0) & ((t[1] | t[2] | t[3]) != 0);
    }
  }
  sx_assume(!pooled);
  const unsigned idx = (p[2] | p[3] << 8) >> 3;
  sx_assert(r.size() == units * 4 && r.data() == p && r.index_size() == idx && r.payload_size() == 4 * (units - 1 - idx) && r.empty() == (units == 1), "sizes are those of the bytes");
  if (sx_choose(2))
    check_reader(r);
  else
    check_iteration(r, idx, p);
  sx_reach("done");
}
