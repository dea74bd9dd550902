#include "sx.h"
#include <cstdlib>
#include "fast_positive/tuples.h"
void sx_main() {
  const unsigned units = 1 + sx_choose(SX_BOUND(5, 7));
  uint8_t *p = (uint8_t *)malloc(units * 4);
  sx_bytes(p, units * 4);
  const char *trouble = fptu::tuple_ro_weak::validate(p, units * 4, nullptr, false);
  sx_observe(trouble == nullptr);
  if (trouble == nullptr) sx_reach("accepted"); else sx_reach("rejected");
  free(p);
}
