// Ownership: histories of copies, moves, clones, nested views and mutations over two modifiable and two read-only
// handles.  Every handle keeps exactly its own content, every buffer is released exactly once.
#include "model.h"
#include <memory>
using namespace fptu;
struct cell { bool there, schema, u, t, n, nested; uint32_t uv, nv, pv; };
static tuple_rw_fixed *rw[2];
static tuple_ro_managed *ro[2];
static cell mw[2], mr[2];
static std::unique_ptr<schema> sch;
static token tu, tt, tn, tp;

static const schema *of(const cell &c) { return c.schema ? sch.get() : nullptr; }

template <class T> static void holds(const T &t, const cell &m) {
  sx_assert(t.is_present(tu) == m.u && t.is_present(tt) == m.t && t.is_present(tn) == m.n, "a handle has exactly its own fields");
  if (m.u) sx_assert(t.get_u32(tu) == m.uv, "a handle keeps its number");
  if (m.t) sx_assert(t.get_string(tt) == string_view("eight-by", 8), "a handle keeps its text");
  if (m.n) {
    const tuple_ro_weak in = t.get_nested_weak(tn);
    sx_assert(in.validate(nullptr, true) == nullptr && in.size() == 12 && in.get_u32(tu) == m.nv, "a handle keeps its nested tuple");
  }
  if (m.schema) sx_assert(t.get_u32(tp) == m.pv, "a handle keeps its preplaced field");
}
static void check_all() {
  for (unsigned i = 0; i < 2; ++i) {
    sx_assert(bool(*rw[i]) == mw[i].there && bool(*ro[i]) == mr[i].there, "a handle is hollow exactly when nothing was put to it or it was moved from");
    if (mw[i].there) {
      const tuple_rw_fixed &t = *rw[i];
      sx_assert(t.validate() == nullptr, "a modifiable tuple is consistent");
      sx_assert(t.take_weak_asis().validate(of(mw[i]), false) == nullptr, "the serialized form of a modifiable tuple is valid");
      sx_assert(t.schema() == of(mw[i]), "a modifiable tuple keeps its schema");
      holds(t, mw[i]);
    }
    if (mr[i].there) {
      sx_assert(ro[i]->validate(of(mr[i]), false) == nullptr, "a read-only tuple is valid");
      holds(*ro[i], mr[i]);
    }
  }
}

template <class F> static bool fits(F f) {
  try { f(); } catch (const insufficient_space &) { return false; }
  return true;
}

static void step() {
  const unsigned op = sx_choose(17), i = sx_choose(2), j = sx_choose(2);
  cell &W = mw[i], &V = mw[j], &R = mr[i], &Q = mr[j];
  switch (op) {
  case 0: // change a number
    if (!W.there || i != j) sx_done();
    {
      const uint32_t v = sx_u32();
      if (fits([&] { rw[i]->set_u32(tu, v); })) W.uv = v, W.u = true;
    }
    break;
  case 1: // drop the text: makes a hole
    if (!W.there || i != j || !W.t) sx_done();
    rw[i]->erase(tt);
    W.t = false;
    break;
  case 2: // change the preplaced field
    if (!W.there || i != j || !W.schema) sx_done();
    W.pv = sx_u32();
    rw[i]->set_u32(tp, W.pv);
    break;
  case 3: // independent read-only copies
    if (!V.there) sx_done();
    switch (sx_choose(3)) {
    case 0: *ro[i] = rw[j]->take_managed_clone_asis(); break;
    case 1: *ro[i] = rw[j]->take_managed_clone_optimized().first; break;
    case 2: *ro[i] = tuple_ro_managed::clone(*rw[j]); break;
    }
    R = V;
    break;
  case 4: // move to read-only
    if (!V.there) sx_done();
    switch (sx_choose(3)) {
    case 0: *ro[i] = rw[j]->move_to_ro(); break;
    case 1: *ro[i] = rw[j]->move_to_ro(true); break;
    case 2: *ro[i] = std::move(*rw[j]); break;
    }
    R = V;
    V.there = false;
    break;
  case 5: // move to modifiable
    try {
      *rw[i] = std::move(*ro[j]);
      sx_assert(Q.there, "a hollow tuple can't be made modifiable");
      W = Q;
      Q.there = false;
    } catch (const tuple_hollow &) {
      sx_assert(!Q.there, "a tuple which is there can be made modifiable");
      sx_reach("hollow");
    }
    break;
  case 6: *ro[i] = *ro[j]; R = Q; break; // share
  case 7: { // move
    if (i == j) sx_done();
    *ro[i] = std::move(*ro[j]);
    R = Q;
    Q.there = false;
    break;
  }
  case 8: // modifiable copy of a read-only one
    if (!Q.there) sx_done();
    switch (sx_choose(3)) {
    case 0: *rw[i] = tuple_rw_fixed::clone(*ro[j], 1, 12, of(Q)); break;
    case 1: *rw[i] = tuple_rw_fixed::clone(ro[j]->take_weak(), 1, 12, of(Q)); break;
    case 2: *rw[i] = tuple_rw_fixed::clone(*ro[j], tiny, of(Q)); break;
    }
    W = Q;
    break;
  case 9: // copy of a modifiable one
    if (!V.there) sx_done();
    if (sx_choose(2)) *rw[i] = tuple_rw_fixed::clone(*rw[j]);
    else *rw[i] = tuple_rw_fixed::clone(*rw[j], 1, 12);
    W = V;
    break;
  case 10: // view of the nested tuple, which keeps the buffer
    if (!Q.there || !Q.n) sx_done();
    sx_reach("nested");
    *ro[i] = ro[j]->get_nested_managed(tn);
    {
      const uint32_t v = Q.nv;
      R = cell();
      R.there = R.u = R.nested = true;
      R.uv = v;
    }
    break;
  case 11: // read-only clone
    if (!Q.there) sx_done();
    if (sx_choose(2)) *ro[i] = tuple_ro_managed::clone(*ro[j], of(Q));
    else *ro[i] = tuple_ro_managed::clone(ro[j]->take_weak(), of(Q));
    R = Q;
    break;
  case 12: // move of a modifiable one
    if (!V.there) sx_done();
    *rw[i] = std::move(*rw[j]);
    if (i != j) { W = V; V.there = false; }
    break;
  case 13: // swap
    if (i == j) sx_done();
    if (sx_choose(2)) { rw[0]->swap(*rw[1]); std::swap(mw[0], mw[1]); }
    else { ro[0]->swap(*ro[1]); std::swap(mr[0], mr[1]); }
    break;
  case 14: // drop
    if (i == j) { rw[i]->purge(); W.there = false; }
    else { ro[i]->purge(); R.there = false; }
    break;
  case 15: // put a small tuple into another one
    if (!W.there || !Q.there || !Q.nested || !Q.u || Q.t) sx_done();
    if (fits([&] { rw[i]->set_nested(tn, ro[j]->take_weak()); })) W.n = true, W.nv = Q.uv;
    break;
  case 16: { // a schema the tuple does not follow is refused
    if (!sch || i != j) sx_done();
    bool refused = false;
    const unsigned way = sx_choose(5);
    if (way < 3 ? !Q.there || Q.schema : !V.there || V.schema) sx_done();
    try {
      switch (way) {
      case 0: *ro[1 - i] = tuple_ro_managed::clone(*ro[j], sch.get()); break;
      case 1: *ro[1 - i] = tuple_ro_managed::clone(ro[j]->take_weak(), sch.get()); break;
      case 2: *rw[1 - i] = tuple_rw_fixed::clone(*ro[j], 1, 12, sch.get()); break;
      case 3: *ro[1 - i] = tuple_ro_managed::clone(rw[j]->take_weak_asis(), sch.get()); break;
      case 4: *rw[1 - i] = tuple_rw_fixed::clone(rw[j]->take_weak_asis(), 1, 12, sch.get()); break;
      }
    } catch (const bad_tuple &) { refused = true; sx_reach("misfit"); }
    sx_assert(refused, "a copy with a schema is refused when the tuple does not follow it");
    break;
  }
  }
}

void sx_main() {
  tu = token(genus::u32, 1, false, true);
  tt = token(genus::text, 2, false, true);
  tn = token(genus::nested, 3, false, true);
  const bool with = sx_choose(2);
  if (with) {
    sch.reset(schema::create().release());
    sch->define_preplaced("p", genus::u32);
    tp = sch->get_token("p");
  }
  const uint64_t live = sx_live_allocs();
  {
    tuple_rw_fixed w0(4, 96, with ? sch.get() : nullptr), w1(0, 0, nullptr);
    tuple_ro_managed r0, r1;
    w1.purge();
    rw[0] = &w0, rw[1] = &w1, ro[0] = &r0, ro[1] = &r1;
    cell &m = mw[0];
    m.there = m.t = true;
    m.schema = with;
    w0.set_string(tt, string_view("eight-by", 8));
    if (with) { m.pv = sx_u32(); w0.set_u32(tp, m.pv); }
    m.u = sx_choose(2);
    if (m.u) { m.uv = sx_u32(); w0.set_u32(tu, m.uv); }
    tuple_rw_fixed in(1, 4, nullptr);
    m.nv = sx_u32();
    in.set_u32(tu, m.nv);
    w0.set_nested(tn, in.take_weak_asis());
    m.n = true;
    in.purge();
    const unsigned n = sx_choose(SX_BOUND(4, 5));
    for (unsigned k = 0; k < n; ++k) step();
    check_all();
    // a change of a modifiable one is not seen by the others
    for (unsigned k = 0; k < 2; ++k)
      if (mw[k].there) {
        const uint32_t v = sx_u32();
        if (fits([&] { rw[k]->set_u32(tu, v); })) mw[k].uv = v, mw[k].u = true;
        if (mw[k].schema) { mw[k].pv = sx_u32(); rw[k]->set_u32(tp, mw[k].pv); }
      }
    check_all();
    // the handles go one after another, each time the rest stays as it was
    if (mr[0].there || mw[0].there) {
      ro[0]->purge(), rw[0]->purge();
      mr[0].there = mw[0].there = false;
      check_all();
    }
  }
  sx_assert(sx_live_allocs() == live, "all memory is released");
  sch.reset();
  sx_reach("done");
}
