// The C interface for reading: lookup, iteration and counting by type or set of types, typed reads, C strings, comparison.
#include "model.h"
#include "fast_positive/tuples/legacy.h"
using namespace model;
static content c;
static uint8_t *w;
static unsigned k, kind_genus[4];

static const uint8_t legacy_genus[] = {7, 4, 8, 9, 12, 13, 14, 10, 16, 17, 18, 19, 22, 0, 1, 2, 28, 29, 30};
static const fptu_type legacy_type[] = {fptu_uint16, fptu_bool, fptu_int32, fptu_uint32, fptu_int64, fptu_uint64, fptu_fp64, fptu_fp32, fptu_datetime, fptu_96, fptu_128, fptu_160, fptu_256, fptu_cstr, fptu_opaque, fptu_nested, fptu_mac, fptu_ip, fptu_ipnet};
enum { n_types = 19, n_values = 16 };

static bool by_parity(const fptu_field *pf, void *context, void *param) noexcept {
  return (fptu_field_column(pf) & 1) == (context ? 1 : 0) && param;
}
static bool any_field(const fptu_field *, void *, void *) noexcept { return true; }

static void build(unsigned kmax, bool all) {
  static const uint8_t few[] = {31, 7, 9, 0, 13, 4};
  k = sx_choose(kmax + 1);
  unsigned units[4], total = 0, sub[4];
  for (unsigned i = 0; i < k; ++i) {
    const unsigned g = all ? sx_choose(32) : few[sx_choose(k < 3 ? 6 : 4)];
    kind_genus[i] = g;
    sub[i] = g < 4 ? sx_choose(all ? 5 : 2) : g == 31 ? sx_choose(2) : 0;
    units[i] = g < 4 ? (sub[i] == 0 ? 0 : sub[i] == 4 ? 2 : sub[i] == 1 && !all ? 2 : 1 + (g == 1 && sub[i] > 1)) : g == 31 ? sub[i] : g < 8 ? 0 : fixed_bytes(g) / 4;
    if (g == 2 && units[i] > 1) units[i] = 3;
    total += units[i];
  }
  const unsigned size = 1 + k + total;
  w = (uint8_t *)malloc(4 * size);
  memset(w, 0, 4 * size);
  w[0] = uint8_t(size), w[2] = uint8_t(k << 3);
  unsigned at = 1 + k;
  for (unsigned i = 0; i < k; ++i) {
    uint8_t *d = w + 4 + 4 * i, *p = w + 4 * at;
    const unsigned g = kind_genus[i];
    const unsigned id = g == 31 ? units[i] : sx_u16() & 2047u;
    d[2] = uint8_t(id), d[3] = uint8_t(g << 3 | id >> 8);
    if (g >= 4 && g < 8) sx_bytes(d, 2);
    if (units[i]) d[0] = uint8_t(at - 1 - i);
    if (g == 2 && units[i]) {
      p[0] = uint8_t(units[i]);
      if (units[i] == 3) p[2] = 8, p[4] = 1, p[7] = 9 << 3, sx_bytes(p + 8, 4);
    } else {
      sx_bytes(p, 4 * units[i]);
      if (g == 0 && units[i]) p[0] = uint8_t(4 * units[i] - 1 - (sub[i] & 3));
      if (g == 0 && units[i] && p[0] == 0) memset(p, 0, 4); // a non-zero padding is reserved here
      if (g == 1 && units[i]) p[0] = uint8_t(units[i]), p[1] = 0, p[2] = uint8_t(units[i] > 1 ? sub[i] & 3 : 0), p[3] = 0;
      if (g == 3 && units[i]) p[0] = uint8_t(4 * units[i] - 2 - (sub[i] & 1));
    }
    at += units[i];
  }
}
// index of the descriptor, or of the n-th field
static int place(const fptu_ro &ro, const fptu_field *f) { return f ? int((const char *)f - (const char *)fptu_begin_ro(ro)) / 4 : -1; }
static int at_field(unsigned n) {
  for (unsigned i = 0; i < k; ++i)
    if (kind_genus[i] != 31 && n-- == 0) return int(i);
  return -1;
}

#define SAME(T, V) ({ const T v_ = T(V); x.nb == sizeof v_ && sx_memeq(&v_, x.b, sizeof v_); })
static int same_bytes(const void *p, size_t n, const item &x) { return x.nb == 0xFFFF ? n == 0 : n == x.nb && (n == 0 || sx_memeq(p, x.b, n)); }
static int same_cstr(const char *s, const item &x) {
  if (x.nb == 0xFFFF || x.nb == 0) return s == nullptr || *s == 0;
  return s && sx_memeq(s, x.b, x.nb) && s[x.nb] == 0;
}
// the value of a field read with its own type
static int field_is(unsigned t, const fptu_field *f, const item &x) {
  switch (t) {
  case 0: return SAME(uint16_t, fptu_field_uint16(f));
  case 1: return fptu_field_bool(f) == (x.b[0] != 0);
  case 2: return SAME(int32_t, fptu_field_int32(f)) && fptu_field_int32(f) == int32_t(fptu_field_int32(f));
  case 3: return SAME(uint32_t, fptu_field_uint32(f)) && fptu_field_uint32(f) == uint32_t(fptu_field_uint32(f));
  case 4: return SAME(int64_t, fptu_field_int64(f));
  case 5: return SAME(uint64_t, fptu_field_uint64(f));
  case 6: return SAME(double, fptu_field_fp64(f));
  case 7: return SAME(float, fptu_field_fp32(f));
  case 8: return SAME(uint64_t, fptu_field_datetime(f).fixedpoint);
  case 9: return same_bytes(fptu_field_96(f), 12, x);
  case 10: return same_bytes(fptu_field_128(f), 16, x);
  case 11: return same_bytes(fptu_field_160(f), 20, x);
  case 12: return same_bytes(fptu_field_256(f), 32, x);
  case 13: return same_cstr(fptu_field_cstr(f), x);
  case 14: { const iovec v = fptu_field_opaque(f); return same_bytes(v.iov_base, v.iov_len, x); }
  case 15: { const fptu_ro v = fptu_field_nested(f); return same_bytes(v.sys.iov_base, v.sys.iov_len, x); }
  }
  return 1;
}
static int get_is(unsigned t, const fptu_ro &ro, unsigned col, int *err, const item &x) {
  switch (t) {
  case 0: return SAME(uint16_t, fptu_get_uint16(ro, col, err));
  case 1: return fptu_get_bool(ro, col, err) == (x.b[0] != 0);
  case 2: return SAME(int32_t, fptu_get_int32(ro, col, err));
  case 3: return SAME(uint32_t, fptu_get_uint32(ro, col, err));
  case 4: return SAME(int64_t, fptu_get_int64(ro, col, err));
  case 5: return SAME(uint64_t, fptu_get_uint64(ro, col, err));
  case 6: return SAME(double, fptu_get_fp64(ro, col, err));
  case 7: return SAME(float, fptu_get_fp32(ro, col, err));
  case 8: return SAME(uint64_t, fptu_get_datetime(ro, col, err).fixedpoint);
  case 9: { auto *p = fptu_get_96(ro, col, err); return p && same_bytes(p, 12, x); }
  case 10: { auto *p = fptu_get_128(ro, col, err); return p && same_bytes(p, 16, x); }
  case 11: { auto *p = fptu_get_160(ro, col, err); return p && same_bytes(p, 20, x); }
  case 12: { auto *p = fptu_get_256(ro, col, err); return p && same_bytes(p, 32, x); }
  case 13: return same_cstr(fptu_get_cstr(ro, col, err), x);
  case 14: { const iovec v = fptu_get_opaque(ro, col, err); return same_bytes(v.iov_base, v.iov_len, x); }
  case 15: { const fptu_ro v = fptu_get_nested(ro, col, err); return same_bytes(v.sys.iov_base, v.sys.iov_len, x); }
  }
  return 1;
}
static fptu_lge lge(const uint8_t *a, size_t n, const uint8_t *b, size_t m) {
  for (size_t i = 0; i < n && i < m; ++i)
    if (a[i] != b[i]) return a[i] < b[i] ? fptu_lt : fptu_gt;
  return n == m ? fptu_eq : n < m ? fptu_lt : fptu_gt;
}

static void search(const fptu_ro &ro) {
  const fptu_field *const begin = fptu_begin_ro(ro), *const end = fptu_end_ro(ro);
  const unsigned col = sx_u32();
  sx_assume(col < 5000);
  const bool filter = sx_choose(2);
  uint32_t arg;
  unsigned t = 0;
  if (filter) arg = sx_u32() & 0x7fffffffu;
  else {
    static const uint8_t types[] = {0, 3, 13, 5, 2};
    t = types[sx_choose(5)];
    arg = legacy_type[t];
  }
  // the fields which match, in order
  int found[4], n = 0;
  for (unsigned i = 0; i < c.n; ++i) {
    const unsigned g = c.it[i].tag >> 11, id = c.it[i].tag & 2047;
    if (id == col && (filter ? arg >> g & 1 : g == legacy_genus[t])) found[n++] = at_field(i);
  }
  sx_assert(place(ro, fptu_lookup_ro(ro, col, fptu_type_or_filter(arg))) == (n ? found[0] : -1), "lookup finds the first matching field");
  sx_assert(fptu_field_count_ro(ro, col, fptu_type_or_filter(arg)) == unsigned(n), "the number of matching fields is reported");
  const fptu_field *f = fptu_first(begin, end, col, fptu_type_or_filter(arg));
  for (int i = 0; i < n; ++i) {
    sx_assert(f != end && place(ro, f) == found[i], "iteration visits the matching fields in order");
    f = fptu_next(f, end, col, fptu_type_or_filter(arg));
  }
  sx_assert(f == end, "iteration ends after the last matching field");
  sx_reach("search");
}

static void filters(const fptu_ro &ro) {
  const fptu_field *const begin = fptu_begin_ro(ro), *const end = fptu_end_ro(ro);
  const bool odd = sx_choose(2);
  int found[4];
  unsigned n = 0;
  for (unsigned i = 0; i < c.n; ++i)
    if ((c.it[i].tag & 1) == odd) found[n++] = at_field(i);
  void *const ctx = odd ? (void *)&n : nullptr;
  sx_assert(fptu_field_count_ro_ex(ro, by_parity, ctx, &n) == n, "the number of fields selected by a function is reported");
  sx_assert(fptu_field_count_ro_ex(ro, by_parity, ctx, nullptr) == 0, "the arguments reach the function");
  const fptu_field *f = fptu_first_ex(begin, end, by_parity, ctx, &n);
  for (unsigned i = 0; i < n; ++i) {
    sx_assert(f != end && place(ro, f) == found[i], "iteration visits the fields selected by a function");
    f = fptu_next_ex(f, end, by_parity, ctx, &n);
  }
  sx_assert(f == end, "iteration ends after the last field selected");
  sx_assert(fptu_is_empty_ro(ro) == (c.n == 0), "a tuple is empty exactly when it has no fields");
  // every field reports its column, type and value
  f = fptu_first_ex(begin, end, any_field, nullptr, nullptr);
  for (unsigned i = 0; i < c.n; ++i) {
    sx_assert(f != end && place(ro, f) == at_field(i), "iteration visits every field");
    const item &x = c.it[i];
    const unsigned g = x.tag >> 11;
    sx_assert(!fptu_field_is_dead(f) && fptu_field_column(f) == (x.tag & 2047), "a field reports its column");
    for (unsigned t = 0; t < n_types; ++t) {
      if (legacy_genus[t] == g) {
        sx_assert(fptu_field_type(f) == legacy_type[t], "a field reports its type");
        sx_assert(field_is(t, f, x), "a field gives its value");
      }
    }
    if (g != 3) {
      const iovec v = fptu_field_as_iovec(f);
      sx_assert(same_bytes(v.iov_base, v.iov_len, x), "a field gives the bytes of its value");
      sx_assert(v.iov_base == fptu_field_payload(f), "a field gives the place of its value");
    }
    f = fptu_next_ex(f, end, any_field, nullptr, nullptr);
  }
  if (k && kind_genus[0] == 31) sx_assert(fptu_field_is_dead(begin) && fptu_field_column(begin) < 0, "a removed field is reported as such");
  sx_reach("filters");
}

static volatile uint64_t sink;
static void values(const fptu_ro &ro) {
  const unsigned col = sx_u32();
  sx_assume(col < 4096);
  const unsigned t = sx_choose(n_values);
  const unsigned g = legacy_genus[t];
  int first = -1;
  for (unsigned i = c.n; i-- > 0;)
    if (c.it[i].tag >> 11 == g && (c.it[i].tag & 2047) == col) first = int(i);
  int err = 12345;
  if (first >= 0) {
    sx_assert(get_is(t, ro, col, &err, c.it[first]), "a read by column gives the value of the first such field");
    sx_assert(err == FPTU_OK, "a successful read reports no error");
    sx_assert(get_is(t, ro, col, nullptr, c.it[first]), "the error is optional");
    sx_reach("value");
  } else {
    item none;
    none.nb = uint16_t(g < 4 ? 0 : fixed_bytes(g));
    memset(none.b, 0, sizeof none.b);
    const int empty = get_is(t, ro, col, &err, none);
    if (col > 2047) sx_assert(err != FPTU_OK && err != 12345, "an impossible column is refused");
    else sx_assert(err == FPTU_ENOFIELD || (err == FPTU_OK && empty), "an absent field reads as empty or is reported");
  }
  // a field read with a wrong type
  if (c.n) {
    const fptu_field *f = fptu_first_ex(fptu_begin_ro(ro), fptu_end_ro(ro), any_field, nullptr, nullptr);
    if (c.it[0].tag >> 11 != g) {
      item none;
      none.nb = uint16_t(g < 4 ? 0 : fixed_bytes(g));
      memset(none.b, g == 14 || g == 10 ? 0xff : 0, sizeof none.b);
      if (t >= 9 && t <= 12) {
        const void *p = t == 9 ? fptu_field_96(f) : t == 10 ? fptu_field_128(f) : t == 11 ? fptu_field_160(f) : fptu_field_256(f);
        sx_assert(p == nullptr, "a field read with a wrong type gives nothing");
      } else sx_assert(field_is(t, f, none), "a field read with a wrong type gives nothing");
    }
  }
  sx_reach("values");
}

static void compare(const fptu_ro &ro) {
  static uint8_t ref[32];
  const unsigned col = sx_u16() & 2047u;
  const unsigned t = 9 + sx_choose(4), g = legacy_genus[t];
  sx_bytes(ref, 32);
  int first = -1, opaque = -1;
  for (unsigned i = c.n; i-- > 0;)
    if ((c.it[i].tag & 2047) == col) {
      if (c.it[i].tag >> 11 == g) first = int(i);
      if (c.it[i].tag >> 11 == 1) opaque = int(i);
    }
  if (sx_choose(2)) {
    const fptu_lge r = t == 9 ? fptu_cmp_96(ro, col, ref) : t == 10 ? fptu_cmp_128(ro, col, ref) : t == 11 ? fptu_cmp_160(ro, col, ref) : fptu_cmp_256(ro, col, ref);
    sx_assert(r == (first < 0 ? fptu_ic : lge(c.it[first].b, c.it[first].nb, ref, fixed_bytes(g))), "comparison of a binary value");
  } else {
    static const uint8_t lens[] = {0, 1, 2, 4};
    const unsigned len = lens[sx_choose(4)];
    const struct iovec iov = {(void *)ref, len};
    const fptu_lge r = len & 1 ? fptu_cmp_opaque(ro, col, ref, len) : fptu_cmp_opaque_iov(ro, col, iov);
    const unsigned have = opaque < 0 || c.it[opaque].nb == 0xFFFF ? 0 : c.it[opaque].nb;
    sx_assert(r == (opaque < 0 ? len ? fptu_ic : fptu_eq : lge(c.it[opaque].b, have, ref, len)), "comparison of a sequence of bytes");
  }
  sx_reach("compare");
}

// tags of the C interface
static void tags() {
  const unsigned col = sx_u16() & 2047u, t = sx_choose(n_types);
  const fptu_tag_t tag = fptu_make_tag(col, legacy_type[t]);
  sx_assert(fptu_get_colnum(tag) == col && fptu_get_type(tag) == legacy_type[t], "a tag gives back its column and type");
  sx_assert(fptu_tag_is_fixedsize(tag) == (legacy_genus[t] > 3) && !fptu_tag_is_deleted(tag), "a tag tells the nature of its type");
  sx_assert(fptu_field_column(nullptr) < 0 && fptu_field_type(nullptr) == fptu_null && fptu_field_is_dead(nullptr), "no field is reported as such");
  fptu_ro hollow;
  static const uint8_t few[4] = {9, 0, 0, 0};
  hollow.sys.iov_base = (void *)few;
  hollow.sys.iov_len = sx_choose(5);
  int err = 12345;
  sink = fptu_get_uint64(hollow, col, &err);
  sx_assert(err != FPTU_OK && err != 12345, "a hollow tuple is refused");
  sx_assert(fptu_is_empty_ro(hollow) && fptu_lookup_ro(hollow, col, fptu_type_or_filter(legacy_type[t])) == nullptr && fptu_field_count_ro(hollow, col, fptu_type_or_filter(fptu_any)) == 0, "a hollow tuple has no fields");
  sx_reach("tags");
}

void sx_main() {
#if PART == 0
  build(3, false);
#else
  if (sx_choose(8) == 0) return tags();
  build(SX_BOUND(1, 2), true);
#endif
  fptu_ro ro;
  ro.sys.iov_base = w;
  ro.sys.iov_len = w[0] * 4u;
  sx_assume(fptu_check_ro(ro) == nullptr);
  snap(w, 0, c);
#if PART == 0
  if (sx_choose(2)) search(ro);
  else filters(ro);
#else
  switch (sx_choose(3)) {
  case 0: values(ro); break;
  case 1: compare(ro); break;
  case 2: filters(ro); break;
  }
#endif
  free(w);
}
