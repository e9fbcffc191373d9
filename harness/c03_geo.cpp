// one build per bucket storage kind (-DST=0..2)
#include "geo.h"
#ifndef IFACT
#define IFACT 1
#endif
struct Base : OrderConf { Entry deduplicate(Entry a, Entry) const { return a; } };
struct Run { template<class C> static void go(size_t b, size_t m) { mathic::Geobucket<C> q(C(b, m)); fullHistory(q); } };
VS_HARNESS(geo) { Pick<Run, STORAGE, false, IFACT, Base>::p0(); }
// a concrete fill of several buckets, then symbolic operations
struct Fill { template<class C> static void go(size_t b, size_t mn) { mathic::Geobucket<C> q(C(b, mn)); Model m; unsigned N = vs_param("N", 6), pat = vs_param("PAT", 0);
  for (unsigned i = 0; i < N; ++i) { unsigned k = pat == 0 ? i : pat == 1 ? N - i : (i * 5) % N; q.push(m.put(2 * k + 1)); }
  checkState(q, m); unsigned ops = vs_param("OPS", 1); for (unsigned i = 0; i < ops; ++i) oneOp(q, m, vs_param("KINDS", 15), vs_param("RL", 2)); finish(q, m); } };
VS_HARNESS(geo_fill) { Pick<Fill, STORAGE, false, IFACT, Base>::p0(); }
// clearing after several buckets were in use, then more operations
struct Cleared { template<class C> static void go(size_t b, size_t mn) { mathic::Geobucket<C> q(C(b, mn)); Model m; unsigned N = vs_param("N", 5);
  for (unsigned i = 0; i < N; ++i) q.push(m.put(2 * ((i * 3) % N) + 1));
  q.clear(); for (unsigned j = 0; j < m.n; ++j) m.alive[j] = false; m.count = 0; checkState(q, m); Ops<mathic::Geobucket<C> >::all(q, m);
  unsigned ops = vs_param("OPS", 1); doPushRange(q, m, 1 + vs_choice("len", 4)); for (unsigned i = 0; i < ops; ++i) oneOp(q, m, 15, 2); finish(q, m); } };
VS_HARNESS(geo_clear) { Pick<Cleared, STORAGE, false, IFACT, Base>::p0(); }
