#include "dedup.h"
#include <mathic/Heap.h>
template<bool Fast> struct Conf : WConf { static const bool fastIndex = Fast; static const bool supportDeduplication = true; };
VS_HARNESS(heap_dd_fast) { WModel m; mathic::Heap<Conf<true> > q((Conf<true>())); wrun(q, m); }
VS_HARNESS(heap_dd_slow) { WModel m; mathic::Heap<Conf<false> > q((Conf<false>())); wrun(q, m); }
// a concrete fill deep enough that merging moves a whole path back, then symbolic operations
template<bool Fast> static void fill() { WModel m; mathic::Heap<Conf<Fast> > q((Conf<Fast>())); unsigned N = vs_param("N", 8), pat = vs_choice("pattern", 3);
  for (unsigned i = 0; i < N; ++i) { unsigned k = pat == 0 ? N - i : pat == 1 ? (i * 5) % N : i / 2; q.push(m.put(2 * k + 1)); }
  wrun(q, m); }
VS_HARNESS(heap_dd_fill_fast) { fill<true>(); }
VS_HARNESS(heap_dd_fill_slow) { fill<false>(); }
