// Collections of a modifiable tuple: iteration, writing and erasing through iterators.
#include "model.h"
using namespace model;
using fptu::genus;
using fptu::string_view;
using fptu::token;
#ifndef MANAGED
#define MANAGED 0
#endif
static content before, after;

static void make(const void *v, unsigned nb, uint16_t tag, item &x) {
  x.tag = tag;
  x.nb = uint16_t(nb);
  memcpy(x.b, v, nb);
}

void sx_main() {
  // items: hole of 0/1 units, item of the collection, field of the same type, field of another type
  enum { hole0, hole1, member, sibling, other, kinds };
  const bool text = sx_choose(2);
  const unsigned k = sx_choose(SX_BOUND(5, 6));
  unsigned kind[6], units[6], total = 0;
  for (unsigned i = 0; i < k; ++i) {
    kind[i] = k < SX_BOUND(4, 5) ? sx_choose(kinds) : member - sx_choose(2);
    units[i] = kind[i] == hole0 ? 0 : kind[i] == hole1 ? 1 : kind[i] == other ? 1 : text ? 1 + (kind[i] == member && i == 0) : 1;
    total += units[i];
  }
  const bool reverse = k > 1 ? sx_choose(2) : 0;
  const unsigned size = 1 + k + total;
  uint8_t *w = (uint8_t *)calloc(size, 4);
  w[0] = uint8_t(size), w[2] = uint8_t(k << 3);
  const uint16_t id = sx_u16(), id2 = sx_u16();
  sx_assume((id < 2048) & (id2 < 2048) & (id != id2));
  unsigned at = 1 + k;
  const genus type = text ? genus::text : genus::u32;
  for (unsigned j = 0; j < k; ++j) {
    const unsigned i = reverse ? k - 1 - j : j;
    uint8_t *d = w + 4 + 4 * i, *p = w + 4 * at;
    const unsigned g = kind[i] < member ? 31 : kind[i] == other ? unsigned(genus::f32) : unsigned(type);
    const unsigned fid = kind[i] < member ? units[i] : kind[i] == sibling ? id2 : id;
    d[2] = uint8_t(fid), d[3] = uint8_t(g << 3 | fid >> 8);
    if (units[i]) d[0] = uint8_t(at - 1 - i);
    sx_bytes(p, 4 * units[i]);
    if (g == 0) p[0] = uint8_t(4 * units[i] - 2), p[4 * units[i] - 1] = 0;
    at += units[i];
  }
  sx_assume(fptu::tuple_ro_weak::validate(w, size * 4, nullptr, false) == nullptr);
  const unsigned room = sx_choose(2);
#if MANAGED
  fptu::tuple_rw_managed t(w, size * 4, room, room * 8, nullptr);
#else
  fptu::tuple_rw_fixed t(w, size * 4, room, room * 8, nullptr);
#endif
  sx_assume(t.validate() == nullptr);
  snap(w, 0, before);
  const uint16_t tag = uint16_t(unsigned(type) << 11 | id);
  const bool discernible = sx_choose(2);
  const token tk(type, id, true, discernible);
  const unsigned n = count_tag(before, tag);
  unsigned pos[8], m = 0;
  for (unsigned i = 0; i < before.n; ++i)
    if (before.it[i].tag == tag) pos[m++] = i;

  // iteration: every item once, in the order of the index
  {
    unsigned at2 = 0;
    auto range = t.collection(tk);
    for (auto it = range.begin(); it != range.end(); ++it, ++at2) {
      sx_assert(at2 < n, "a collection holds no more items than there are");
      const item &x = before.it[pos[at2]];
      if (text) {
        const string_view v = (*it).get_string();
        sx_assert(v.size() == x.nb && sx_memeq(v.data(), x.b, x.nb), "iteration gives the values of the items");
      } else {
        const uint32_t v = (*it).get_u32();
        sx_assert(sx_memeq(&v, x.b, 4), "iteration gives the values of the items");
      }
    }
    sx_assert(at2 == n, "iteration visits every item");
    auto a = range.begin();
    for (unsigned i = 0; i < n; ++i) {
      auto was = a++;
      sx_assert(was != a && (*was).exist(), "postfix increment returns the previous position");
    }
    sx_assert(a == range.end(), "the items end at the end");
  }

  uint8_t val[12];
  sx_bytes(val, sizeof val);
  uint32_t v32;
  memcpy(&v32, val, 4);
  enum { put, drop, drop_range, drop_all, add };
  const unsigned op = sx_choose(5);
  unsigned from = 0, to = n, len = 4;
  if (op == put || op == drop) {
    if (!n) return;
    from = sx_choose(n), to = from + 1;
  } else if (op == drop_range) {
    from = sx_choose(n + 1), to = from + sx_choose(n - from + 1);
  }
  if (text && (op == put || op == add)) {
    static const uint8_t lens[] = {0, 2, 5, 9};
    len = lens[sx_choose(4)];
  }
  const bool empty = text ? len == 0 : v32 == 0;
  const bool removal = empty && !discernible;
  item x;
  make(val, len, tag, x);
  bool no_space = false;
  auto range = t.collection(tk);
  auto first = range.begin();
  for (unsigned i = 0; i < from; ++i) ++first;
  auto last = first;
  for (unsigned i = from; i < to; ++i) ++last;
  size_t count = 0;
  try {
    switch (op) {
    case put: {
      auto a = *first;
      if (text) a.set_string(string_view((const char *)val, len));
      else a.set_u32(v32);
      sx_assert(a.exist() == !removal, "the item written is there unless it was emptied");
      if (!removal) {
        if (text) {
          const string_view v = a.get_string();
          sx_assert(v.size() == len && sx_memeq(v.data(), val, len), "the item written reads back");
        } else sx_assert(a.get_u32() == v32, "the item written reads back");
      }
      break;
    }
    case drop: count = t.erase(first); break;
    case drop_range: count = t.erase(first, last); break;
    case drop_all: count = t.erase(range); break;
    case add: {
      auto it = text ? t.insert_string(tk, string_view((const char *)val, len)) : t.insert_u32(tk, v32);
      const auto a = *it;
      sx_assert(a.exist() == !removal, "insertion returns the new item unless it was empty");
      if (!removal) {
        if (text) {
          const string_view v = a.get_string();
          sx_assert(v.size() == len && sx_memeq(v.data(), val, len), "insertion returns the new item");
        } else sx_assert(a.get_u32() == v32, "insertion returns the new item");
      }
      break;
    }
    }
  } catch (const fptu::insufficient_space &) {
    no_space = true;
  }
  if (no_space) {
    sx_reach("no_space");
    sx_assert(op == put || (op == add && !MANAGED), "erasing needs no space and a growing tuple finds some");
  } else if (op != put && op != add) {
    sx_assert(count == to - from, "erasing reports the number of items erased");
  }
  const fptu::tuple_ro_weak ro = t.take_weak_asis();
  sx_assert(fptu::tuple_ro_weak::validate(ro.data(), ro.size(), nullptr, false) == nullptr && t.validate() == nullptr, "the tuple is valid afterwards");
  snap(ro.data(), 0, after);
  // what is expected to remain
  static content want;
  want.n = 0;
  for (unsigned i = 0; i < before.n; ++i) {
    bool gone = false;
    if (!no_space && op != add)
      for (unsigned j = from; j < to; ++j) gone |= pos[j] == i;
    if (!gone) want.it[want.n++] = before.it[i];
  }
  if (!no_space && (op == put || op == add) && !removal) want.it[want.n++] = x;
  if (after.n == want.n + 0 && text && len == 0 && !removal) // an empty text may be kept with or without a payload
    for (unsigned i = 0; i < after.n; ++i)
      if (after.it[i].nb == 0xFFFF) after.it[i].nb = 0;
  sx_observe(no_space);
  sx_observe(after.n);
  sx_assert(same_content(after, want), "writing, adding or erasing items changes just these items");
  // and iteration over the rest still works
  unsigned left = 0;
  auto rest = t.collection(tk);
  for (auto it = rest.begin(); it != rest.end(); ++it) ++left;
  sx_assert(left == count_tag(want, tag), "iteration visits every remaining item");
  sx_reach("done");
}
