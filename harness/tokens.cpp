// Tokens: what was put in is what comes out, and order/equality ignore options.
#include "model.h"
using namespace fptu;
void sx_main() {
  const unsigned g = sx_concretize(sx_range(0, 30));
  const bool c = sx_u8() & 1, n = sx_u8() & 1, s = sx_u8() & 1;
  const unsigned id = sx_u32();
  const int64_t off = (int64_t)sx_u64();
  bool refused = false;
  if (sx_choose(2)) {
    token t;
    try { t = token(genus(g), id, c, n, s); } catch (const invalid_argument &) { refused = true; }
    sx_assert(refused == (id > 2047), "an identifier out of range is refused");
    if (refused) { sx_reach("refused"); return; }
    sx_assert(t.is_valid() && t.is_loose() && !t.is_preplaced() && t.type() == genus(g) && t.id() == id && t.is_collection() == c && t.is_discernible_null() == n && t.is_saturated() == s && t.is_rangechecking() == !s, "a token keeps what it was made of");
    const token other(genus(g), id, !c, !n, !s);
    sx_assert(token::is_same(t, other) && !(t < other) && !(other < t) && token::hash()(t) == token::hash()(other), "options do not change the identity of a field");
    const unsigned g2 = sx_concretize(sx_range(0, 30)), id2 = sx_range(0, 2047);
    const token u(genus(g2), id2, c, n, s);
    sx_assert(token::is_same(t, u) == (g == g2 && id == id2), "different fields have different tokens");
    sx_assert((t < u) + (u < t) + token::is_same(t, u) == 1, "tokens are totally ordered");
    sx_assert(t.is_stretchy() == (g < 4), "variable-size types are known as such");
    const bool sgn = g == 4 || g == 6 || g == 8 || g == 12, uns = g == 5 || g == 7 || g == 9 || g == 13, flt = g == 10 || g == 14 || g == 15;
    sx_assert(t.is_integer() == (sgn || uns) && t.is_unsigned() == uns && t.is_signed() == (sgn || flt) && t.is_float() == flt && t.is_number() == (sgn || uns || flt), "numeric types are known as such");
  } else {
    token t;
    try { t = token(ptrdiff_t(off), genus(g), n, s); } catch (const invalid_argument &) { refused = true; }
    sx_assert(refused == (off < 0 || off > (int64_t)details::max_preplaced_offset), "an offset out of range is refused");
    if (refused) { sx_reach("refused"); return; }
    sx_assert(t.is_preplaced() && !t.is_loose() && !t.is_collection() && t.type() == genus(g) && t.preplaced_offset() == off && t.is_discernible_null() == n && t.is_saturated() == s, "a token keeps what it was made of");
    const unsigned fb = model::fixed_bytes(g), size = g < 4 ? 4 : g == 4 || g == 5 ? 1 : g == 6 || g == 7 ? 2 : fb;
    sx_assert(t.preplaced_size() == size, "the size of a preplaced field is that of its type");
    const int64_t off2 = sx_range(0, details::max_preplaced_offset);
    const token u(ptrdiff_t(off2), genus(g), !n, !s);
    sx_assert(token::is_same(t, u) == (off == off2) && (t < u) == (off < off2), "preplaced fields are ordered by place");
    const token l(genus(g), sx_range(0, 2047));
    sx_assert(t < l && !token::is_same(t, l), "preplaced fields come before loose ones");
  }
  sx_reach("done");
}
