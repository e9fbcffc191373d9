#include "pair.h"
// an exception somewhere in adding a column: the queue holds exactly what it held before and goes on working
template<class Set> static void failingAdd(Set set, unsigned points) {
  w.reset();
  { mathic::PairQueue<PConf> q((PConf())); unsigned FULL = vs_param("FULL", 3), POPS = vs_param("POPS", 1), FREE = vs_param("FREE", 0);
    if (vs_param("FILL", 0)) pfill(q, vs_param("FILL", 0));
    for (unsigned i = 0; i < FULL; ++i) paddFull(q);
    for (unsigned i = vs_choice("pops", POPS + 1); i && w.count; --i) ppop(q);
    pcheck(q); Rows r; if (vs_param("FILL", 0)) { r.n = 1; r.r[0] = 2; } else pchoose(r, w.cols, FREE); pdescend(r, w.cols); unsigned cols = w.cols; bool thrown = false;
    set(vs_choice("point", points));
    try { padd(q, r); } catch (const Fault&) { thrown = true; } catch (const std::bad_alloc&) { thrown = true; }
    w.throwAt = w.cmpThrowAt = -1; vs_fail_alloc(-1);
    if (thrown) { vs_assert(w.cols == cols, "a failed add was recorded"); vs_cover("thrown"); } else vs_cover("not thrown");
    pcheck(q);
    unsigned more = vs_param("MORE", 1); for (unsigned i = 0; i < more; ++i) { if (vs_param("FILL", 0)) { Rows x; x.n = 1; x.r[0] = 1; w.known[w.cols][1] = true; w.key[w.cols][1] = 1005 + 20 * i; padd(q, x); pcheck(q); } else paddAny(q, false); } pdrain(q); }
  CHK(CatLife | CatFault, w.alive == 0, "pair data was leaked"); vs_cover("end"); }
struct SetCompute { void operator()(unsigned n) const { w.throwAt = w.calls + n; } };
struct SetCompare { void operator()(unsigned n) const { w.cmpThrowAt = w.cmpCalls + n; } };
struct SetAlloc { void operator()(unsigned n) const { vs_fail_alloc(n); } };
VS_HARNESS(add_compute) { failingAdd(SetCompute(), 2); }
VS_HARNESS(add_compare) { failingAdd(SetCompare(), 4); }
VS_HARNESS(add_alloc) { failingAdd(SetAlloc(), vs_param("POINTS", 6)); }
// an exception while computing the next pair's data in a pop reaches the caller and leaks nothing
VS_HARNESS(pop_compute) {
  w.reset();
  { mathic::PairQueue<PConf> q((PConf())); unsigned FULL = vs_param("FULL", 4), OPS = vs_param("OPS", 2);
    if (vs_param("FILL", 0)) pfill(q, vs_param("FILL", 0));
    for (unsigned i = 0; i < FULL; ++i) paddFull(q);
    for (unsigned i = vs_choice("pops", OPS + 1); i && w.count; --i) ppop(q);
    if (w.count) { bool thrown = false; long before = w.calls; w.throwAt = before + vs_choice("point", 2);
      std::pair<size_t, size_t> p = q.topPair();
      try { if (vs_choice("retire", 2)) { w.retired[vs_concretize(p.first)] = true; q.retireIndex(p.first); } else q.pop(); } catch (const Fault&) { thrown = true; }
      vs_assert(thrown == (w.calls > w.throwAt), "an exception did not reach the caller");
      if (thrown) vs_cover("thrown"); w.throwAt = -1; } }
  CHK(CatLife | CatFault, w.alive == 0, "pair data was leaked or destructed twice"); vs_cover("end"); }
