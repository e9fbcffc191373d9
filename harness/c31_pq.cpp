// the same operations on all queues surface the same keys
#include "geo.h"
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/StlSet.h>
template<bool Fast> struct HConf : OrderConf { static const bool fastIndex = Fast; static const bool supportDeduplication = false; Entry deduplicate(Entry a, Entry) const { return a; } };
struct GBase : OrderConf { Entry deduplicate(Entry a, Entry) const { return a; } };
struct Run { template<class C> static void go(size_t b, size_t mn) {
  mathic::Heap<HConf<true> > h1((HConf<true>())); mathic::Heap<HConf<false> > h2((HConf<false>())); mathic::TourTree<HConf<false> > t1((HConf<false>())); mathic::TourTree<HConf<true> > t2((HConf<true>())); mathic::StlSet<OrderConf> s((OrderConf())); mathic::Geobucket<C> g(C(b, mn));
  unsigned n = 0, held = 0; uint32_t key[MaxIds]; unsigned K = vs_param("K", 3), OPS = vs_param("OPS", 2), N = vs_param("N", 0);
  struct L { };
  #define EACH(what) do { h1.what; h2.what; t1.what; t2.what; s.what; g.what; } while (0)
  #define SAME() do { uint32_t k = h1.top().key; vs_assert((h2.top().key == k) & (t1.top().key == k) & (t2.top().key == k) & (s.top().key == k) & (g.top().key == k), "the queues surface different keys"); vs_out(k); } while (0)
  #define POP() do { uint32_t k = h1.pop().key; vs_assert((h2.pop().key == k) & (t1.pop().key == k) & (t2.pop().key == k) & (s.pop().key == k) & (g.pop().key == k), "the queues pop different keys"); vs_out(k); } while (0)
  #define EMPTY() do { bool e = held == 0; vs_assert((h1.empty() == e) & (h2.empty() == e) & (t1.empty() == e) & (t2.empty() == e) & (s.empty() == e) & (g.empty() == e), "the queues disagree on being empty"); } while (0)
  for (unsigned i = 0; i < N; ++i) { Ent e; e.id = n; e.key = 2 * ((i * 5) % N) + 1; ++n; ++held; EACH(push(e)); }
  for (unsigned i = 0; i < K + OPS; ++i) {
    unsigned op = i < K ? 0 : vs_choice("op", 4); if (held == 0 && (op == 1 || op == 2)) op = 0;
    if (op == 0) { Ent e; e.id = n; e.key = key[n] = (uint32_t)vs_sym("key", KeyBits); ++n; ++held; EACH(push(e)); }
    else if (op == 1) { SAME(); POP(); --held; }
    else if (op == 2) { SAME(); uint32_t k = h1.top().key; Ent e; e.id = n; e.key = (uint32_t)vs_sym("key", KeyBits); ++n; vs_assume(e.key <= k); h1.decreaseTop(e); h2.decreaseTop(e); t1.decreaseTop(e); t2.decreaseTop(e); s.pop(); s.push(e); g.decreaseTop(e); }
    else { Ent r[4]; unsigned len = 1 + vs_choice("len", 3); for (unsigned j = 0; j < len; ++j) { r[j].id = n++; r[j].key = (uint32_t)vs_sym("key", KeyBits); if (j) vs_assume(r[j].key <= r[j - 1].key); } const Ent* b = r; EACH(push(b, b + len)); held += len; }
    EMPTY(); }
  while (held) { SAME(); POP(); --held; EMPTY(); }
  vs_cover("end"); } };
VS_HARNESS(all_queues) { Pick<Run, STORAGE, false, 1, GBase>::p0(); }
