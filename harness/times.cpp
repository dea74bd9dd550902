// Times: conversions between units and the 32.32 fixed point form, and ordering.
#include "sx.h"
#include "fast_positive/tuples/internal.h"
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/types/datetime.h"
#include <sys/time.h>
#include <time.h>
using fptu::datetime_t;

// t = s + value/factor seconds, rounded down to 2^-32 s
static void fits(datetime_t t, uint64_t s, uint64_t value, uint64_t factor) {
  sx_assert(t.utc_seconds() == uint32_t(s), "whole seconds are exact");
  const uint64_t f = t.fractional();
  sx_assert(f * factor <= value << 32, "a conversion does not run ahead");
  sx_assert(value << 32 < (f + 1) * factor, "a conversion loses less than the least unit");
  sx_assert(t.fixedpoint_32dot32() == (uint64_t(t.utc_seconds()) << 32 | t.fractional()), "both parts make up the whole");
}

void sx_main() {
  static const uint32_t factors[] = {1000, 1000000, 1000000000, 10000000};
  switch (sx_choose(6)) {
  case 0: {
    const unsigned k = sx_choose(4);
    const uint32_t s = sx_u32(), v = sx_u32();
    sx_assume(v < factors[k]);
    const uint64_t u = uint64_t(s) * factors[k] + v;
    switch (k) {
    case 0: fits(datetime_t::from_milliseconds(u), s, v, 1000); break;
    case 1: fits(datetime_t::from_usec(u), s, v, 1000000); break;
    case 2: fits(datetime_t::from_nsec(u), s, v, 1000000000); break;
    case 3: fits(datetime_t::from_100ns(u), s, v, 10000000); break;
    }
    sx_reach("units");
    break;
  }
  case 1: {
    struct timespec ts;
    const uint32_t s = sx_u32(), v = sx_u32();
    sx_assume(v < 1000000000);
    ts.tv_sec = s, ts.tv_nsec = v;
    fits(sx_choose(2) ? datetime_t(ts) : datetime_t::from_timespec(ts), s, v, 1000000000);
    break;
  }
  case 2: {
    struct timeval tv;
    const uint32_t s = sx_u32(), v = sx_u32();
    sx_assume(v < 1000000);
    tv.tv_sec = s, tv.tv_usec = v;
    fits(sx_choose(2) ? datetime_t(tv) : datetime_t::from_timeval(tv), s, v, 1000000);
    break;
  }
  case 3: {
    const uint32_t s = sx_u32();
    const time_t t = s;
    fits(sx_choose(2) ? datetime_t(&t) : datetime_t::from_seconds(s), s, 0, 1000);
    const uint64_t u = sx_u64();
    sx_assert(datetime_t::from_fixedpoint_32dot32(u).fixedpoint_32dot32() == u, "the fixed point form is taken as it is");
    break;
  }
  case 4: { // from fractions to units
    const uint32_t f = sx_u32();
    const unsigned k = sx_choose(3);
    const uint64_t u = k == 0 ? datetime_t::fractional2ms(f) : k == 1 ? datetime_t::fractional2us(f) : datetime_t::fractional2ns(f);
    sx_assert(u < factors[k], "a fraction is less than a second");
    sx_assert(u << 32 <= uint64_t(f) * factors[k] && uint64_t(f) * factors[k] < (u + 1) << 32, "a fraction is rounded down to the unit");
    break;
  }
  case 5: { // order
    const uint64_t x = sx_u64(), y = sx_u64();
    const datetime_t a = datetime_t::from_fixedpoint_32dot32(x), b = datetime_t::from_fixedpoint_32dot32(y);
    sx_assert((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "times are ordered as they go");
    break;
  }
  }
  sx_reach("done");
}
