#include "pq.h"
#include <mathic/TourTree.h>
template<bool Fast> struct ConfT : OrderConf { static const bool fastIndex = Fast; };
typedef ConfT<false> Conf;
typedef mathic::TourTree<Conf> Q;
VS_HARNESS(tour) { Q q((Conf())); fullHistory(q); }
// growth: the tree reallocates at 8, 16, ... elements
VS_HARNESS(tour_grow) { Q q((Conf())); Model m; unsigned N = vs_param("N", 8); unsigned pat = vs_choice("pattern", 3);
  for (unsigned i = 0; i < N; ++i) { unsigned k = pat == 0 ? i : pat == 1 ? N - i : (i * 5) % N; q.push(m.put(2 * k + 1)); checkState(q, m); }
  unsigned ops = vs_param("OPS", 2); for (unsigned i = 0; i < ops; ++i) oneOp(q, m, OpPush | OpPop | OpDec, 0); finish(q, m); }
VS_HARNESS(tour_fast) { mathic::TourTree<ConfT<true> > q((ConfT<true>())); fullHistory(q); }
