// The C interface for modification: opening, inserting, replacing, updating, erasing, space and errors.
#include "layout.h"
#include "fast_positive/tuples/legacy.h"
using namespace model;
static content before, after, want;
static uint8_t val[32];

enum { t_u16, t_bool, t_i32, t_u32, t_i64, t_u64, t_f64, t_f32, t_dt, t_96, t_128, t_160, t_256, t_str, t_opaque, t_nested, t_count };
static const uint8_t genus_of[] = {7, 4, 8, 9, 12, 13, 14, 10, 16, 17, 18, 19, 22, 0, 1, 2};
enum { do_insert, do_upsert, do_update };

// an empty value may be kept with or without a payload: both read the same
static void take(const fptu_rw *rw, content &c) {
  const fptu_ro ro = fptu_take_noshrink(rw);
  sx_assert(fptu_check_ro(ro) == nullptr, "the serialized form is valid");
  snap(ro.sys.iov_base, 0, c);
  sx_assert(ro.sys.iov_len == c.units * 4, "the serialized form has the size reported");
  sx_assert(fptu_junkspace(rw) == 4 * (c.holes + c.hole_units), "the junk is what the serialized form contains");
  sx_assert(fptu_is_empty_rw(rw) == (c.n == 0), "a tuple is empty exactly when it has no fields");
  for (unsigned i = 0; i < c.n; ++i)
    if (c.it[i].nb == 0xFFFF) c.it[i].nb = 0;
}
template <class T> static T as() {
  T v;
  memcpy(&v, val, sizeof v);
  return v;
}
#define OP(NAME, ...) (how == do_insert ? fptu_insert_##NAME(rw, column, __VA_ARGS__) : how == do_upsert ? fptu_upsert_##NAME(rw, column, __VA_ARGS__) : fptu_update_##NAME(rw, column, __VA_ARGS__))
static fptu_error store(fptu_rw *rw, unsigned how, unsigned type, unsigned column, unsigned len, const fptu_ro &nested) {
  switch (type) {
  case t_u16: return OP(uint16, as<uint16_t>());
  case t_bool: return OP(bool, val[0] != 0);
  case t_i32: return OP(int32, as<int32_t>());
  case t_u32: return OP(uint32, as<uint32_t>());
  case t_i64: return OP(int64, as<int64_t>());
  case t_u64: return OP(uint64, as<uint64_t>());
  case t_f64: return OP(fp64, as<double>());
  case t_f32: return OP(fp32, as<float>());
  case t_dt: return OP(datetime, fptu_datetime_t::from_fixedpoint_32dot32(as<uint64_t>()));
  case t_96: return OP(96, val);
  case t_128: return OP(128, val);
  case t_160: return OP(160, val);
  case t_256: return OP(256, val);
  case t_str: return OP(string, (const char *)val, len);
  case t_opaque: {
    if (sx_choose(2)) return OP(opaque, val, len);
    struct iovec iov = {val, len};
    return OP(opaque_iov, iov);
  }
  default: return OP(nested, nested);
  }
}

static fptu_rw *open(const uint8_t *w, unsigned bytes, unsigned items, unsigned more) {
  fptu_ro ro;
  ro.sys.iov_base = (void *)w;
  ro.sys.iov_len = bytes;
  fptu_rw *rw = nullptr;
  switch (sx_choose(3)) {
  case 0: {
    fptu_cbfs_result cbfs;
    const size_t size = fptu_check_and_get_buffer_size_ex(ro, items, more, &cbfs);
    sx_assert(size > 0 && cbfs.err == FPTU_OK, "a valid tuple is accepted");
    rw = fptu_fetch_ex(ro, malloc(size), size, items, &cbfs);
    break;
  }
  case 1: {
    const char *error = "";
    const size_t size = fptu_check_and_get_buffer_size(ro, items, more, &error);
    sx_assert(size > 0 && error == nullptr, "a valid tuple is accepted");
    rw = fptu_fetch(ro, malloc(size), size, items);
    break;
  }
  case 2: {
    const size_t size = fptu_get_buffer_size(ro, items, more);
    rw = fptu_fetch(ro, malloc(size), size, items);
    break;
  }
  }
  sx_assert(rw != nullptr, "a tuple opens in a buffer of the size reported");
  return rw;
}

// is `now` the same as `was` but for one item of the tag replaced by x?
static int one_replaced(const content &was, const content &now, const item &x) {
  int ok = 0;
  for (unsigned i = 0; i < was.n; ++i) {
    want = was;
    want.it[i] = x;
    ok |= (was.it[i].tag == x.tag) & same_content(want, now);
  }
  return ok;
}
static int one_added(const content &was, const content &now, const item &x) {
  want = was;
  want.it[want.n++] = x;
  return same_content(want, now);
}

static bool any_field(const fptu_field *, void *, void *) noexcept { return true; }

static void step() {
  unsigned bytes;
  uint8_t *w = layout_wire(3, &bytes);
  sx_assume(fptu::tuple_ro_weak::validate(w, bytes, nullptr, false) == nullptr);
  const unsigned room = sx_choose(2);
  static const uint8_t more_bytes[] = {0, 8};
  fptu_rw *rw = open(w, bytes, room, more_bytes[room]);
  free(w);
  take(rw, before);
  sx_assume(fptu_check_rw(rw) == nullptr); // holes next to the free space are not allowed in the modifiable form
  sx_assert(fptu_space4items(rw) >= room && fptu_space4data(rw) >= more_bytes[room], "an opened tuple has the extra room asked for");
  const unsigned column = sx_u32();
  sx_assume(column < 5000);
  enum { put, erase_type, erase_filter, erase_one, clear, shrink };
  const unsigned op = sx_choose(6);
  switch (op) {
  case put: {
    static const uint8_t put_types[] = {t_u16, t_u32, t_u64, t_str, t_opaque};
    const unsigned how = sx_choose(3), type = put_types[sx_choose(5)];
    static const uint8_t lens[] = {0, 2, 3, 6};
    const unsigned len = type == t_opaque ? lens[sx_choose(4)] + 1 : lens[sx_choose(type == t_str ? 4 : 1)];
    sx_bytes(val, 8);
    item x;
    x.tag = uint16_t(genus_of[type] << 11 | column);
    x.nb = uint16_t(type == t_u16 ? 2 : type == t_u32 ? 4 : type == t_u64 ? 8 : len);
    memcpy(x.b, val, x.nb);
    const size_t heads = fptu_space4items(rw), tails = fptu_space4data(rw);
    fptu_clear_error();
    fptu_ro none;
    const fptu_error err = store(rw, how, type, column, len, none);
    take(rw, after);
    if (column > 2047) {
      sx_assert(err == FPTU_EINVAL, "an impossible column is refused as invalid");
    } else if (how == do_update && count_tag(before, x.tag) == 0) {
      sx_assert(err == FPTU_ENOFIELD, "update of an absent field is refused as such");
    } else if (err == FPTU_OK) {
      if (how == do_insert || count_tag(before, x.tag) == 0) sx_assert(one_added(before, after, x), "exactly the new field is added");
      else sx_assert(one_replaced(before, after, x), "exactly one field of the column and type gets the new value");
    } else {
      sx_assert(err == FPTU_ENOSPACE, "otherwise a store fails only for lack of space");
      const unsigned need = type == t_u16 ? 0 : type == t_u32 ? 4 : type == t_u64 ? 8 : type == t_str ? (len + 4) & ~3u : (len + 7) & ~3u;
      sx_assert(!(heads && tails >= need), "a store does not fail when there is space for it");
    }
    if (err != FPTU_OK) {
      sx_assert(same_content(before, after), "a failed store changes nothing");
      sx_assert(fptu_last_error_code() == err, "the last error is the one returned");
    }
    break;
  }
  case erase_type: {
    static const uint8_t erase_types[] = {t_u16, t_u64, t_str, t_i32};
    const unsigned type = erase_types[sx_choose(4)];
    const uint16_t tag = uint16_t(genus_of[type] << 11 | column);
    static const fptu_type legacy[] = {fptu_uint16, fptu_bool, fptu_int32, fptu_uint32, fptu_int64, fptu_uint64, fptu_fp64, fptu_fp32, fptu_datetime, fptu_96, fptu_128, fptu_160, fptu_256, fptu_cstr, fptu_opaque, fptu_nested};
    const int n = fptu::erase(rw, column, legacy[type]);
    take(rw, after);
    if (column > 2047) {
      sx_assert(n == -FPTU_EINVAL && same_content(before, after), "an impossible column is refused as invalid");
      break;
    }
    sx_assert(n == (count_tag(before, tag) != 0), "erasing by type removes one field if there is any");
    sx_assert(after.n + unsigned(n) == before.n && count_tag(after, tag) + unsigned(n) == count_tag(before, tag) && same_others(before, after, tag), "erasing by type removes nothing else");
    for (unsigned i = 0; i < after.n; ++i)
      sx_assert(count_item(before, after.it[i]) >= count_item(after, after.it[i]), "the remaining fields keep their values");
    break;
  }
  case erase_filter: {
    const uint32_t mask = sx_u32() & 0x7fffffffu;
    const int n = fptu::erase(rw, column, fptu_filter(mask));
    take(rw, after);
    if (column > 2047) {
      sx_assert(n == -FPTU_EINVAL && same_content(before, after), "an impossible column is refused as invalid");
      break;
    }
    unsigned k = 0;
    want.n = 0;
    for (unsigned i = 0; i < before.n; ++i) {
      if (((before.it[i].tag & 2047) == column) & (mask >> (before.it[i].tag >> 11))) ++k;
      else want.it[want.n++] = before.it[i];
    }
    sx_assert(n >= 0 && unsigned(n) == k, "erasing by a set of types returns the number of fields removed");
    sx_assert(same_content(want, after), "erasing by a set of types removes exactly the fields of the column and those types");
    break;
  }
  case erase_one: {
    const fptu_field *const end = fptu_end_rw(rw), *f = fptu_begin_rw(rw);
    const unsigned i = sx_choose(before.n + 1);
    if (i < before.n) {
      f = fptu_first_ex(f, end, any_field, nullptr, nullptr);
      for (unsigned j = 0; j < i && f != end; ++j) f = fptu_next_ex(f, end, any_field, nullptr, nullptr);
      sx_assert(f != end && !fptu_field_is_dead(f), "iteration finds every field");
    } else {
      if (f == end || !fptu_field_is_dead(f)) break;
    }
    want.n = 0;
    for (unsigned j = 0; j < before.n; ++j)
      if (j != i) want.it[want.n++] = before.it[j];
    fptu_erase_field(rw, const_cast<fptu_field *>(f));
    take(rw, after);
    sx_assert(same_content(want, after), "erasing a field removes exactly that field");
    break;
  }
  case clear:
    sx_assert(fptu_clear(rw) == FPTU_OK, "clearing succeeds");
    take(rw, after);
    sx_assert(after.n == 0 && after.units == 1, "a cleared tuple is empty");
    break;
  case shrink: {
    const bool junk = fptu_junkspace(rw) != 0;
    const fptu_ro ro = fptu_take(rw);
    take(rw, after);
    sx_assert(same_content(before, after), "taking the compact form keeps all fields");
    sx_assert(after.holes == 0 && fptu_junkspace(rw) == 0 && fptu_check_ro_ex(ro, true) == nullptr, "the compact form has no holes");
    sx_assert(after.units == before.units - before.holes - before.hole_units, "the compact form is shorter by the junk");
    (void)junk;
    break;
  }
  }
  sx_assert(fptu_check_rw(rw) == nullptr, "the tuple stays consistent");
  fptu_destroy(rw);
  sx_reach("step");
}

// all types, in a new tuple
static void types() {
  static uint8_t inner[12] = {3, 0, 8, 0, 1, 0, 5, 9 << 3, 0, 0, 0, 0};
  const unsigned type = sx_choose(t_count);
  const unsigned column = sx_u32();
  sx_assume(column < 4096);
  static const uint8_t bytes_of[] = {2, 1, 4, 4, 8, 8, 8, 4, 8, 12, 16, 20, 32};
  static const uint8_t lens[] = {0, 1, 3, 4, 7, 31};
  unsigned len = type >= t_str && type < t_nested ? lens[sx_choose(6)] : 0;
  sx_bytes(val, 32);
  if (type == t_bool) sx_assume(val[0] < 2);
  sx_bytes(inner + 8, 4);
  fptu_ro nested;
  nested.sys.iov_base = inner;
  nested.sys.iov_len = 12;
  item x;
  x.tag = uint16_t(genus_of[type] << 11 | column);
  x.nb = uint16_t(type < t_str ? bytes_of[type] : type < t_nested ? len : 12);
  memcpy(x.b, type == t_nested ? inner : val, x.nb);
  const unsigned payload = type < t_i32 ? 0 : type == t_str ? (len + 4) & ~3u : type == t_opaque ? 4 + ((len + 3) & ~3u) : x.nb;
  const size_t live = sx_live_allocs();
  fptu_rw *rw = fptu_alloc(2, 2 * payload);
  sx_assert(rw && fptu_is_empty_rw(rw) && fptu_space4items(rw) >= 2 && fptu_space4data(rw) >= 2 * payload, "a new tuple has the room asked for");
  take(rw, before);
  const unsigned how = sx_choose(3);
  fptu_error err = store(rw, how, type, column, len, nested);
  take(rw, after);
  if (column > 2047 || how == do_update) {
    sx_assert(err == (column > 2047 ? FPTU_EINVAL : FPTU_ENOFIELD), "an impossible column or an absent field is refused");
    sx_assert(after.n == 0, "a refused store changes nothing");
  } else {
    sx_assert(err == FPTU_OK && one_added(before, after, x), "exactly the new field is added");
    before = after;
    // another value for the same field
    sx_bytes(val, 32);
    if (type == t_bool) sx_assume(val[0] < 2);
    sx_bytes(inner + 8, 4);
    memcpy(x.b, type == t_nested ? inner : val, x.nb);
    const unsigned again = sx_choose(3);
    err = store(rw, again, type, column, len, nested);
    take(rw, after);
    sx_assert(err == FPTU_OK, "a store for which there is room succeeds");
    sx_assert(again == do_insert ? one_added(before, after, x) : one_replaced(before, after, x), "exactly the field addressed gets the new value");
  }
  sx_assert(fptu_check_rw(rw) == nullptr, "the tuple stays consistent");
  fptu_destroy(rw);
  if (err == FPTU_OK) // (the text of the last error is kept)
    sx_assert(sx_live_allocs() == live, "destruction releases all memory");
  sx_reach("types");
}

// buffers of any size: refused or really sufficient
static void buffers() {
  const unsigned items = sx_choose(3);
  static uint8_t w[12] = {3, 0, 8, 0, 1, 0, 5, 9 << 3, 1, 2, 3, 4};
  fptu_ro ro;
  ro.sys.iov_base = w;
  ro.sys.iov_len = sizeof w;
  const bool fetch = sx_choose(2);
  const size_t enough = fetch ? fptu_get_buffer_size(ro, items, 0) : fptu_space(items, 0);
  sx_assert(enough < 100, "the size of a buffer is moderate");
  const size_t size = sx_choose(unsigned(enough) + 9);
  void *buffer = malloc(size);
  fptu_cbfs_result cbfs;
  fptu_check_and_get_buffer_size_ex(ro, items, 0, &cbfs);
  fptu_rw *rw = !fetch ? fptu_init(buffer, size, items) : sx_choose(2) ? fptu_fetch(ro, buffer, size, items) : fptu_fetch_ex(ro, buffer, size, items, &cbfs);
  sx_assert((rw != nullptr) == (size >= enough), "a buffer is refused exactly when it is too small");
  if (!rw) {
    free(buffer);
  } else {
    sx_assert(fptu_check_rw(rw) == nullptr && fptu_space4items(rw) >= items, "the tuple in the buffer has the room asked for");
    const size_t tail = fptu_space4data(rw);
    unsigned n = 0;
    while (fptu_insert_uint32(rw, n, n) == FPTU_OK) {
      ++n;
      sx_assert(n <= 32, "a buffer is not endless");
    }
    sx_assert(n == (tail / 4 < fptu_space4items(rw) + n ? tail / 4 : fptu_space4items(rw) + n), "all the space reported can be used");
    sx_assert(fptu_check_rw(rw) == nullptr, "the tuple stays consistent");
    fptu_destroy(rw);
  }
  sx_reach("buffers");
}

// lookup and counting in the modifiable form
static bool by_type(const fptu_field *f, void *context, void *param) noexcept {
  return fptu_field_type(f) == *(fptu_type *)context && param == (void *)&want;
}
static void view() {
  unsigned bytes;
  uint8_t *w = layout_wire(3, &bytes);
  sx_assume(fptu::tuple_ro_weak::validate(w, bytes, nullptr, false) == nullptr);
  fptu_rw *rw = open(w, bytes, 0, 0);
  free(w);
  sx_assume(fptu_check_rw(rw) == nullptr);
  take(rw, before);
  const unsigned column = sx_u32();
  sx_assume(column < 5000);
  const uint32_t mask = sx_u32() & 0x7fffffffu;
  static const uint8_t g[] = {7, 9, 0};
  static const fptu_type legacy[] = {fptu_uint16, fptu_uint32, fptu_cstr};
  const unsigned t = sx_choose(4);
  const fptu_type_or_filter what = t < 3 ? fptu_type_or_filter(legacy[t]) : fptu_type_or_filter(mask);
  unsigned k = 0, n = 0;
  const fptu_ro ro = fptu_take_noshrink(rw);
  const fptu_field *f = fptu_lookup_rw(rw, column, what), *same = fptu_lookup_ro(ro, column, what);
  for (unsigned i = 0; i < before.n; ++i) {
    k += ((before.it[i].tag & 2047) == column) & (t < 3 ? (before.it[i].tag >> 11) == g[t] : mask >> (before.it[i].tag >> 11)) & 1;
    n += (before.it[i].tag >> 11) == g[t % 3];
  }
  sx_assert(fptu_field_count_rw(rw, column, what) == k, "the number of fields of a column in a modifiable tuple");
  sx_assert((f != nullptr) == (k != 0) && f == same, "lookup in a modifiable tuple finds the first field of the column");
  sx_assert(fptu_field_count_rw_ex(rw, by_type, (void *)&legacy[t % 3], &want) == n, "the number of fields chosen by a given function");
  const bool junk = fptu_junkspace(rw) != 0;
  const bool moved = fptu_cond_shrink(rw);
  take(rw, after);
  sx_assert(after.holes == 0 && same_content(before, after), "shrinking keeps the content and leaves no junk");
  sx_assert(moved == junk, "shrinking is reported when it was done");
  before = after;
  const size_t heads = fptu_space4items(rw);
  const fptu_error err = fptu_upsert_null(rw, column);
  take(rw, after);
  item null;
  null.tag = uint16_t(6 << 11 | column);
  null.nb = 2;
  null.b[0] = 0, null.b[1] = 0x80;
  if (column > 2047) sx_assert(err == FPTU_EINVAL, "an impossible column is refused as invalid");
  else if (err == FPTU_OK) sx_assert(count_tag(before, null.tag) ? one_replaced(before, after, null) : one_added(before, after, null), "exactly a null is stored");
  else sx_assert(err == FPTU_ENOSPACE && heads == 0, "storing a null fails only for lack of space");
  if (err != FPTU_OK) sx_assert(same_content(before, after), "a failed store changes nothing");
  sx_assert(fptu_check_rw(rw) == nullptr, "the tuple stays consistent");
  fptu_destroy(rw);
  sx_reach("view");
}

// what cannot be: sizes beyond the limits, no buffer, broken bytes, a broken result of the check
static void limits() {
  static uint8_t w[12] = {3, 0, 8, 0, 1, 0, 5, 9 << 3, 1, 2, 3, 4};
  fptu_ro ro;
  ro.sys.iov_base = w;
  ro.sys.iov_len = sizeof w;
  switch (sx_choose(6)) {
  case 0: { // any numbers
    const uint32_t items = sx_u32(), more = sx_u32();
    const bool can = (items <= 8191) & (more <= 262136);
    const uint32_t n = items + 1 > 8191 ? 8191 : items + 1;
    uint32_t b = more + 4 > 262136 ? 262136 : more + 4;
    b = (b + 3) & ~3u;
    const size_t base = fptu_space(0, 0), need = can ? base + 4 * size_t(n) + b : 0;
    sx_assert(fptu_get_buffer_size(ro, items, more) == need, "a size is the sum of its parts, or nothing beyond the limits");
    const char *error = nullptr;
    sx_assert(fptu_check_and_get_buffer_size(ro, items, more, &error) == need && !error == can, "a size is the sum of its parts, or nothing with a reason");
    fptu_cbfs_result cbfs;
    sx_assert(fptu_check_and_get_buffer_size_ex(ro, items, more, &cbfs) == need && (cbfs.err == FPTU_OK) == can, "a size is the sum of its parts, or nothing with an error");
    if (!can) sx_assert(cbfs.err == FPTU_EINVAL && cbfs.err_msg != nullptr && fptu_fetch_ex(ro, w, sizeof w, 0, &cbfs) == nullptr, "a failed check lets nothing be opened");
    break;
  }
  case 1: { // sizes of new tuples
    const uint32_t items = sx_u32(), bytes = sx_u32();
    const size_t base = fptu_space(0, 0), got = fptu_space(items, bytes);
    const size_t n = items > 8191 ? 8191 : items, b = bytes > 262136 ? 262136 : bytes;
    sx_assert(got == base + 4 * n + (b + 3) / 4 * 4, "the size of a new tuple is the sum of its parts within the limits");
    sx_assume((items > 8191) | (bytes > 262136));
    sx_assert(fptu_alloc(items, bytes) == nullptr, "a tuple beyond the limits is not made");
    break;
  }
  case 2: { // any bytes
    uint8_t *any = (uint8_t *)malloc(12);
    sx_bytes(any, 12);
    ro.sys.iov_base = any;
    ro.sys.iov_len = sx_choose(13);
    const bool good = fptu_check_ro(ro) == nullptr;
    const char *error = nullptr;
    const size_t size = fptu_check_and_get_buffer_size(ro, 1, 4, &error);
    sx_assert((size != 0) == good && (error == nullptr) == good, "bytes are accepted exactly when they are valid");
    fptu_cbfs_result cbfs;
    sx_assert(fptu_check_and_get_buffer_size_ex(ro, 1, 4, &cbfs) == size && (cbfs.err == FPTU_OK) == good, "bytes are accepted exactly when they are valid");
    if (!good) {
      char buffer[256];
      sx_assert(cbfs.err == FPTU_EINVAL && fptu_fetch_ex(ro, buffer, sizeof buffer, 0, &cbfs) == nullptr, "bytes which were refused are not opened");
    }
    free(any);
    break;
  }
  case 3: { // nothing given
    sx_assert(fptu_fetch(ro, nullptr, 100, 1) == nullptr && fptu_last_error_code() == FPTU_EINVAL, "a tuple is not opened without a buffer");
    fptu_cbfs_result cbfs;
    const size_t size = fptu_check_and_get_buffer_size_ex(ro, 0, 0, &cbfs);
    sx_assert(fptu_fetch_ex(ro, nullptr, 100, 1, &cbfs) == nullptr, "a tuple is not opened without a buffer");
    sx_assert(fptu_fetch_ex(ro, w, size, 0, nullptr) == nullptr, "a tuple is not opened without a result of the check");
    cbfs.err = FPTU_ENOSPACE;
    sx_assert(fptu_fetch_ex(ro, w, size, 0, &cbfs) == nullptr, "a tuple is not opened with a bad result of the check");
    sx_assert(fptu_check_and_get_buffer_size(ro, 0, 0, nullptr) == ~size_t(0) && fptu_check_and_get_buffer_size_ex(ro, 0, 0, nullptr) == ~size_t(0), "a check without a place for its result is refused");
    sx_assert(fptu_init(nullptr, 100, 1) == nullptr && fptu_clear(nullptr) == FPTU_EINVAL, "nothing is refused");
    fptu_destroy(nullptr);
    break;
  }
  case 4: { // an absent tuple opens as an empty one
    ro.sys.iov_len = 0;
    ro.sys.iov_base = sx_choose(2) ? w : nullptr;
    const unsigned items = sx_choose(3);
    const size_t size = fptu_space(items, 8);
    fptu_rw *rw = fptu_fetch(ro, malloc(size), size, items);
    sx_assert(rw && fptu_is_empty_rw(rw) && fptu_check_rw(rw) == nullptr && fptu_space4items(rw) >= items && fptu_space4data(rw) >= 8, "an absent tuple opens as an empty one");
    const uint32_t v = sx_u32();
    sx_assert((fptu_upsert_uint32(rw, 3, v) == FPTU_OK) == (items != 0), "an empty tuple takes a field if there is room");
    if (items) sx_assert(fptu_field_uint32(fptu_lookup_rw(rw, 3, fptu_type_or_filter(fptu_uint32))) == v, "a field is there");
    sx_assert(fptu_clear(rw) == FPTU_OK && fptu_is_empty_rw(rw) && fptu_space4items(rw) >= items && fptu_space4data(rw) >= 8 && fptu_check_rw(rw) == nullptr, "a cleared tuple is empty and has its room");
    fptu_destroy(rw);
    break;
  }
  case 5: { // a broken or absent nested tuple
    fptu_rw *rw = fptu_alloc(2, 64);
    uint8_t *any = (uint8_t *)malloc(8);
    sx_bytes(any, 8);
    fptu_ro in;
    in.sys.iov_base = any;
    in.sys.iov_len = sx_choose(9);
    const bool good = fptu_check_ro(in) == nullptr;
    const unsigned how = sx_choose(3);
    const bool had = sx_choose(2);
    if (had) sx_assert(fptu_upsert_nested(rw, 3, ro) == FPTU_OK, "a nested tuple is stored");
    take(rw, before);
    const fptu_error err = how == do_insert ? fptu_insert_nested(rw, 3, in) : how == do_upsert ? fptu_upsert_nested(rw, 3, in) : fptu_update_nested(rw, 3, in);
    take(rw, after);
    if (!good) sx_assert(err != FPTU_OK && (how == do_update || err == FPTU_EINVAL), "a broken nested tuple is refused");
    else sx_assert((err == FPTU_OK) == (how != do_update || had), "a valid nested tuple is stored");
    if (err) sx_assert(same_content(before, after), "a refused call changes nothing");
    fptu_destroy(rw);
    free(any);
    break;
  }
  }
  sx_reach("limits");
}

void sx_main() {
#if PART == 0
  step();
#elif PART == 1
  types();
#elif PART == 3
  view();
#elif PART == 4
  limits();
#else
  buffers();
#endif
}
