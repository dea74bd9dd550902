// An opaque preplaced structure and the field defined after it.
#include "model.h"
#include <memory>
using namespace fptu;
void sx_main() {
  std::unique_ptr<schema> s(schema::create());
  uint8_t image[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  const token o = s->define_preplaced_fixed_opacity("o", 8, 0, image);
  const token x = s->define_preplaced("x", genus::u32);
  sx_assert(o.preplaced_offset() + 8 <= x.preplaced_offset(), "a field defined after an opaque structure does not overlap it");
}
