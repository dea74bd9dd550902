// Numeric stores with conversion: the very number is stored, or the store is refused and nothing changes.
#include "model.h"
using namespace fptu;
typedef __int128 wide;
#ifdef GROWING
typedef tuple_rw_managed tuple;
#define ROOM 0, 0
#else
typedef tuple_rw_fixed tuple;
#define ROOM 4, 64
#endif
static const genus kinds[] = {genus::i8, genus::u8, genus::i16, genus::u16, genus::i32, genus::u32, genus::i64, genus::u64, genus::f32, genus::f64};
template <class T> static wide read_int(const T &t, const token &k) {
  switch (k.type()) {
  case genus::i8: return t.get_i8(k);
  case genus::u8: return t.get_u8(k);
  case genus::i16: return t.get_i16(k);
  case genus::u16: return t.get_u16(k);
  case genus::i32: return t.get_i32(k);
  case genus::u32: return t.get_u32(k);
  case genus::i64: return t.get_i64(k);
  default: return (wide)t.get_u64(k);
  }
}
static bool in_range(genus g, wide v) {
  switch (g) {
  case genus::i8: return v >= -128 && v <= 127;
  case genus::u8: return v >= 0 && v <= 255;
  case genus::i16: return v >= -32768 && v <= 32767;
  case genus::u16: return v >= 0 && v <= 65535;
  case genus::i32: return v >= INT32_MIN && v <= INT32_MAX;
  case genus::u32: return v >= 0 && v <= UINT32_MAX;
  case genus::i64: return v >= INT64_MIN && v <= INT64_MAX;
  default: return v >= 0 && v <= (wide)UINT64_MAX;
  }
}
enum { done, range, mismatch };
template <class F> static int attempt(F f) {
  try { f(); } catch (const value_out_of_range &) { return range; } catch (const type_mismatch &) { return mismatch; }
  return done;
}
#if FLOATS == 2
// Reading: each general getter yields the very number held, or refuses the kind of field.
template <class T> static void read_all(const T &t, const token &k, wide v, double d) {
  const genus g = k.type();
  const bool flt = g == genus::f32 || g == genus::f64;
  const bool sgn = g == genus::i8 || g == genus::i16 || g == genus::i32 || g == genus::i64;
  wide r = 0;
  volatile int64_t i = 0; volatile uint64_t u = 0; volatile double x = 0;
  int a = attempt([&] { r = i = t.get_integer(k); });
  sx_assert(a == (sgn ? done : mismatch) && (a != done || r == v), "a signed read yields the number held");
  a = attempt([&] { u = t.get_unsigned(k); r = (wide)u; });
  sx_assert(a == (sgn || flt ? mismatch : done) && (a != done || r == v), "an unsigned read yields the number held");
  a = attempt([&] { const int128_t y = t.get_int128(k); i = (int64_t)(y >> 64); u = (uint64_t)y; r = (wide)y; });
  sx_assert(a == (sgn ? done : mismatch) && (a != done || r == v), "a signed 128-bit read yields the number held");
  a = attempt([&] { const uint128_t y = t.get_uint128(k); i = (int64_t)(y >> 64); u = (uint64_t)y; r = (wide)y; });
  sx_assert(a == (sgn || flt ? mismatch : done) && (a != done || r == v), "an unsigned 128-bit read yields the number held");
  double y = 0;
  a = attempt([&] { y = x = t.get_float(k); });
  sx_assert(a == (flt ? done : mismatch) && (a != done || y == d || (y != y && d != d)), "a floating point read yields the number held");
  a = attempt([&] { y = x = t.get_number_as_ieee754double(k); });
  if (flt) sx_assert(a == done && (y == d || (y != y && d != d)), "a read as double yields the number held");
  else if (a == done) sx_assert(v <= (wide)9007199254740992 && v >= -(wide)9007199254740992 && y == (double)(int64_t)v, "a read as double yields the number held");
  else sx_assert(a == range && (v > safe64_number_max || v < safe64_number_min), "a read as double is refused only beyond the safe range");
  sx_reach("stored");
}
void sx_main() {
  const genus g = kinds[sx_choose(10)];
  const bool discernible = sx_choose(2);
  const token k(g, 7, false, discernible);
  tuple t(ROOM, nullptr);
  wide v = 0;
  double d = 0;
  switch (g) {
  case genus::i8: { int8_t x = (int8_t)sx_u8(); v = x; t.set_i8(k, x); break; }
  case genus::u8: { uint8_t x = sx_u8(); v = x; t.set_u8(k, x); break; }
  case genus::i16: { int16_t x = (int16_t)sx_u16(); v = x; t.set_i16(k, x); break; }
  case genus::u16: { uint16_t x = sx_u16(); v = x; t.set_u16(k, x); break; }
  case genus::i32: { int32_t x = (int32_t)sx_u32(); v = x; t.set_i32(k, x); break; }
  case genus::u32: { uint32_t x = sx_u32(); v = x; t.set_u32(k, x); break; }
  case genus::i64: { int64_t x = (int64_t)sx_u64(); v = x; t.set_i64(k, x); break; }
  case genus::u64: { uint64_t x = sx_u64(); v = (wide)x; t.set_u64(k, x); break; }
  case genus::f32: { float x; sx_bytes(&x, 4); d = x; t.set_f32(k, x); break; }
  default: { sx_bytes(&d, 8); t.set_f64(k, d); break; }
  }
  if (sx_choose(2)) read_all(t, k, v, d);
  else read_all(t.take_weak().first, k, v, d);
}
#else
void sx_main() {
  const genus g = kinds[sx_choose(10)];
  const bool flt = g == genus::f32 || g == genus::f64;
  const bool sgn = g == genus::i8 || g == genus::i16 || g == genus::i32 || g == genus::i64;
  const bool insert = sx_choose(2);
  const token one(g, 7, false, true), many(g, 7, true, true);
  const token k = insert ? many : one;
  tuple t(ROOM, nullptr);
  const token other(genus::u32, 9);
  const uint32_t ov = sx_u32();
  sx_assume(ov != 0);
  t.set_u32(other, ov);
  const bool had = !insert && sx_choose(2);
  if (had) { // an older value
    if (flt) { if (g == genus::f32) t.set_f32(one, 1); else t.set_f64(one, 1); }
    else t.set_number(one, 77);
  }
  const auto read_one = [&]() -> wide {
    if (!insert) return read_int(t, k);
    wide r = 0;
    for (const auto &a : t.collection(many)) r = sgn ? (wide)a.get_integer() : (wide)a.get_unsigned();
    return r;
  };
  const auto read_flt = [&]() -> double {
    if (!insert) return t.get_float(k);
    double r = 0;
    for (const auto &a : t.collection(many)) r = a.get_float();
    return r;
  };
  int r = done;
  wide v = 0;
  bool whole = true;
  double d = 0;
  bool must = false, may = true;
#define GO(NAME, VAL) r = attempt([&] { if (insert) t.insert_##NAME(k, VAL); else t.set_##NAME(k, VAL); })
  const unsigned how = sx_choose(
#if FLOATS
      4
#else
      10
#endif
      )
#if FLOATS
      + 10
#endif
      ;
  switch (how) {
  case 0: { const int32_t x = (int32_t)sx_u32(); v = x; GO(number, x); break; }
  case 1: { const uint32_t x = sx_u32(); v = x; GO(number, x); break; }
  case 2: { const int64_t x = (int64_t)sx_u64(); v = x; GO(number, x); break; }
  case 3: { const uint64_t x = sx_u64(); v = (wide)x; GO(number, x); break; }
  case 4: { const int64_t x = (int64_t)sx_u64(); v = x; GO(integer, x); may = sgn; break; }
  case 5: { const uint64_t x = sx_u64(); v = (wide)x; GO(integer, x); may = sgn; break; }
  case 6: { const int64_t x = (int64_t)sx_u64(); v = x; GO(unsigned, x); may = !sgn && !flt; break; }
  case 7: { const uint64_t x = sx_u64(); v = (wide)x; GO(unsigned, x); may = !sgn && !flt; break; }
  case 8: { int128_t x; sx_bytes(&x, 16); v = (wide)x; GO(int128, x); may = sgn; break; }
  case 9: { uint128_t x; sx_bytes(&x, 16); v = (wide)x; if (v < 0) { v = -1; } GO(uint128, x); may = !sgn && !flt; if (v < 0) v = (wide)1 << 100; break; }
  case 10: { float x; sx_bytes(&x, 4); d = x; whole = false; GO(number, x); break; }
  case 11: { sx_bytes(&d, 8); whole = false; GO(number, d); break; }
  case 12: { sx_bytes(&d, 8); whole = false; GO(float, d); may = flt; break; }
  case 13: { if (g != genus::f32) return; sx_bytes(&d, 8); whole = false; GO(number, d); break; }
  }
  sx_observe(r);
  if (!may) sx_assert(r != done, "a store of another kind of numbers is refused");
  if (r == done) {
    sx_reach("stored");
    if (whole && !flt) {
      sx_assert(read_one() == v, "the number stored is the number given");
    } else if (whole) {
      sx_assert(read_flt() == (double)(int64_t)v && v <= safe64_number_max && v >= safe64_number_min, "the number stored is the number given");
    } else if (flt) {
      const double s = read_flt();
      if (d == d) {
        if (g == genus::f64) sx_assert(s == d, "the number stored is the number given");
        else {
          sx_assert(s == (double)(float)d, "the number stored is the number given, to the precision of the field");
          sx_assert((s - s == 0) == (d - d == 0), "a finite number stays finite");
        }
      } else
        sx_assert(s != s, "not-a-number stays not-a-number");
    } else {
      sx_assert(d == d, "not-a-number is never stored as an integer");
      const wide s = read_one();
      if (g == genus::u64) sx_assert(d < 18446744073709551616.0 && d > -1 && (uint64_t)s == (uint64_t)d, "the number stored is the integral part of the number given");
      else sx_assert(d < 9223372036854775808.0 && d >= -9223372036854775808.0 && (int64_t)s == (int64_t)d, "the number stored is the integral part of the number given");
    }
    sx_assert(t.is_present(k), "the field is present");
  } else {
    sx_reach("refused");
    if (whole && may && !flt) sx_assert(r == range && !in_range(g, v), "an integer which fits is accepted");
    if (whole && may && flt) sx_assert(r == range && (v > safe32_number_max || v < safe32_number_min), "an integer within the safe range of the type is accepted");
    if (!whole && flt) sx_assert(r == range && g == genus::f32 && (d > 3.4028234663852886e38 || d < -3.4028234663852886e38) && d - d == 0, "a number which fits is accepted");
    if (!whole && may && !flt) sx_assert(r == range && (d != d || (d < 0 ? !sgn || d < -128 : d > (sgn ? 127 : 255))), "a number which fits is accepted");
    sx_assert(t.is_present(k) == had, "a refused store adds nothing");
    if (had) sx_assert(flt ? read_flt() == 1 : read_int(t, one) == 77, "a refused store changes nothing");
  }
  sx_assert(t.get_u32(other) == ov && t.validate() == nullptr, "a neighbour keeps its value and the tuple is consistent");
}
#endif
