// Memory use of the priority queues, the tree they are built on and the bit triangle (one build per -DSTORAGE).
#include "geo.h"
#include "mem.h"
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/BitTriangle.h>
#include <utility>
template<bool Fast> struct Conf : OrderConf { static const bool fastIndex = Fast; static const bool supportDeduplication = false; Entry deduplicate(Entry a, Entry) const { return a; } };
template<class Q> void dropAll(Model& m) { for (unsigned i = 0; i < m.n; ++i) m.alive[i] = false; m.count = 0; }
template<class Q> void ops(Q& q, Model& m, const Held& h) {
  h.exact(q.getMemoryUse()); unsigned N = vs_param("N", 0), K = vs_param("K", 2), OPS = vs_param("OPS", 1);
  for (unsigned i = 0; i < N; ++i) { q.push(m.put(2 * ((i * 5) % N) + 1)); h.exact(q.getMemoryUse()); }
  for (unsigned i = 0; i < K; ++i) { q.push(m.fresh()); h.exact(q.getMemoryUse()); }
  for (unsigned i = 0; i < OPS; ++i) { oneOp(q, m, vs_param("KINDS", 31), vs_param("RL", 2)); h.exact(q.getMemoryUse()); } }
template<class Q> void queue(const typename Q::Configuration& c) { Held h; { Q q(c); Model m; ops(q, m, h); if (vs_param("DRAIN", 0)) { drain(q, m); h.exact(q.getMemoryUse()); } } h.none(); }
VS_HARNESS(mem_heap) { if (vs_choice("fast", 2)) queue<mathic::Heap<Conf<true> > >(Conf<true>()); else queue<mathic::Heap<Conf<false> > >(Conf<false>()); }
VS_HARNESS(mem_tour) { if (vs_choice("fast", 2)) queue<mathic::TourTree<Conf<true> > >(Conf<true>()); else queue<mathic::TourTree<Conf<false> > >(Conf<false>()); }
// what moves takes its memory along
VS_HARNESS(mem_move) { typedef mathic::Heap<Conf<false> > H; Held h; { H q((Conf<false>())); Model m; ops(q, m, h); H r(std::move(q)); h.exact(q.getMemoryUse() + r.getMemoryUse()); r.push(m.fresh()); q.push(m.fresh()); h.exact(q.getMemoryUse() + r.getMemoryUse()); } h.none(); }
struct Base : OrderConf { Entry deduplicate(Entry a, Entry) const { return a; } };
struct Run { template<class C> static void go(size_t b, size_t m) { queue<mathic::Geobucket<C> >(C(b, m)); } };
VS_HARNESS(mem_geo) { Pick<Run, STORAGE, false, 1, Base>::p0(); }
// the tree, with elements of any size
template<unsigned S> struct E { unsigned char b[S]; };
template<unsigned S, bool F> static void tree() { typedef mathic::ComTree<E<S>, F> T; Held h; { unsigned cap = vs_choice("capacity", vs_param("CAP", 6)); T t(cap); h.exact(t.getMemoryUse()); vs_assert(t.getMemoryUse() == cap * S, "another amount is held than asked for");
    for (unsigned i = 0; i < (unsigned)vs_param("OPS", 3); ++i) { switch (vs_choice("op", 5)) {
      case 0: if (!t.hasFreeCapacity(1)) t.increaseCapacity(); t.pushBackWithCapacity(E<S>()); break;
      case 1: if (!t.empty()) t.popBack(); break;
      case 2: t.clear(); break;
      case 3: t.increaseCapacity(); break;
      case 4: { T u(t, t.size() + vs_choice("extra", 3)); h.exact(t.getMemoryUse() + u.getMemoryUse()); t.swap(u); h.exact(t.getMemoryUse() + u.getMemoryUse()); break; } }
      h.exact(t.getMemoryUse()); } } h.none(); }
VS_HARNESS(mem_tree) { switch (vs_choice("element", 5)) { case 0: tree<1, false>(); break; case 1: tree<3, false>(); break; case 2: tree<24, false>(); break; case 3: tree<4, true>(); break; case 4: tree<8, true>(); break; } }
VS_HARNESS(mem_bits) { Held h; { mathic::BitTriangle b; h.exact(b.getMemoryUse()); unsigned N = vs_param("N", 68); for (unsigned i = 0; i < N; ++i) { b.addColumn(); h.exact(b.getMemoryUse()); } for (unsigned i = 0; i < 2; ++i) { unsigned c = 1 + vs_choice("column", 4) * ((N - 2) / 3); unsigned r = (unsigned)vs_sym("row", 8); vs_assume(r < c); b.setBit(c, r, vs_sym("value", 1) != 0); h.exact(b.getMemoryUse()); }
    mathic::BitTriangle o(b); h.exact(o.getMemoryUse() + b.getMemoryUse()); } h.none(); }
