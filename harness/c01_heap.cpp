#include "pq.h"
#include <mathic/Heap.h>
template<bool Fast> struct Conf : OrderConf { static const bool fastIndex = Fast; static const bool supportDeduplication = false; Entry deduplicate(Entry a, Entry) const { return a; } };
template<bool Fast> static void run() { mathic::Heap<Conf<Fast> > q((Conf<Fast>())); fullHistory(q); }
VS_HARNESS(heap_fast) { run<true>(); }
VS_HARNESS(heap_slow) { run<false>(); }
// an entry that is not a power of two in size (only the slow index layout allows it)
// moving transfers everything and leaves an empty, usable queue behind
template<bool Fast> static void moved() {
  typedef mathic::Heap<Conf<Fast> > H; H q((Conf<Fast>())); Model m;
  history(q, m, vs_param("K", 2), vs_param("OPS", 1), OpPush | OpPop | OpRange, 2);
  H r(std::move(q)); checkState(r, m);
  Model e; checkState(q, e); checkForAll(q, e);
  if (vs_choice("order", 2)) { doPush(q, e); doPush(r, m); } else { doPush(r, m); doPush(q, e); doPush(q, e); }
  finish(r, m); finish(q, e); }
VS_HARNESS(heap_move_fast) { moved<true>(); }
VS_HARNESS(heap_move_slow) { moved<false>(); }
// more elements than the first allocation holds: concrete descending/ascending fill around two symbolic keys
template<bool Fast> static void grown() {
  mathic::Heap<Conf<Fast> > q((Conf<Fast>())); Model m; unsigned N = vs_param("N", 17); unsigned pat = vs_choice("pattern", 3);
  for (unsigned i = 0; i < N; ++i) { unsigned k = pat == 0 ? i : pat == 1 ? N - i : (i * 7) % N; q.push(m.put(2 * k + 1)); }
  checkState(q, m); oneOp(q, m, OpPush | OpPop | OpDec, 0); oneOp(q, m, OpPush | OpPop, 0); finish(q, m); }
VS_HARNESS(heap_grow_fast) { grown<true>(); }
VS_HARNESS(heap_grow_slow) { grown<false>(); }
