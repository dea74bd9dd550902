// Field lookup: every implementation selectable for the CPU, any number of descriptors, any placement inside pages.
#include "model.h"
#include "fast_positive/tuples/details/scan.h"
#include "fast_positive/tuples/internal.h"
using namespace fptu::details;
void sx_main() {
  scan_func_t f;
  unsigned most;
  switch (sx_choose(4)) {
  case 0: f = fptu_scan_unroll; most = SX_BOUND(20, 40); break;
  case 1: f = fptu_scan_SSE2; most = SX_BOUND(44, 140); break;
  case 2: f = fptu_scan_AVX; most = SX_BOUND(88, 280); break;
  default: f = fptu_scan_AVX2; most = SX_BOUND(88, 280); break;
  }
  static const unsigned large[] = {64, 96, 127, 128, 129, 192, 193, 256};
  const unsigned pick = sx_choose(most + 1 + (f == fptu_scan_unroll ? 0 : 8));
  const unsigned n = pick > most ? large[pick - most - 1] : pick;
  uint8_t *pages = (uint8_t *)sx_guarded_page();
  // placement: at the beginning of the page, at the very end of it, around the vector sizes
  static const unsigned off[] = {0, 32, 12, 16, 28, 36};
  const unsigned place = pick > most ? 0 : sx_choose(n < 12 ? 7 : 3);
  const unsigned at = place ? off[place - 1] : 4096 - 4 * n;
  const unsigned from = at < 64 ? 0 : at - 64;
  const unsigned till = at + 4 * n + 64 < 4096 ? at + 4 * n + 64 : 4096;
  sx_bytes(pages + from, till - from); // surroundings are arbitrary as well
  const field_loose *const begin = (const field_loose *)(pages + at), *const end = begin + n;
  const uint16_t tag = sx_u16();
  const field_loose *const got = f(begin, end, tag);
  const unsigned first = got ? (unsigned)sx_concretize((uint64_t)((const uint8_t *)got - (const uint8_t *)begin)) / 4 : n;
  int good = !got | ((first < n) & (got == begin + first));
  for (unsigned i = 0; i < first && i < n; ++i) good &= model::rd16(pages + at + 4 * i + 2) != tag;
  if (got && first < n) good &= model::rd16(pages + at + 4 * first + 2) == tag;
  sx_assert(good, "lookup finds the first matching descriptor inside the index, or nothing if there is none");
  sx_observe(first);
  if (n) sx_assert(f(begin, begin, tag) == nullptr, "nothing is found in an empty index");
  sx_reach("done");
}
