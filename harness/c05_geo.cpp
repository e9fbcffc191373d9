// one build per bucket storage kind (-DSTORAGE=0..2)
#include "dedup.h"
#include "geo.h"
#ifndef IFACT
#define IFACT 1
#endif
struct Run { template<class C> static void go(size_t b, size_t mn) { WModel m; mathic::Geobucket<C> q(C(b, mn)); wrun(q, m); } };
VS_HARNESS(geo_dd) { Pick<Run, STORAGE, true, IFACT, WConf>::p0(); }
// a concrete fill with repeated keys, then symbolic operations
struct Fill { template<class C> static void go(size_t b, size_t mn) { WModel m; mathic::Geobucket<C> q(C(b, mn)); unsigned N = vs_param("N", 6), pat = vs_param("PAT", 0);
  for (unsigned i = 0; i < N; ++i) { unsigned k = pat == 0 ? i / 2 : pat == 1 ? N - i : (i * 5) % N; q.push(m.put(2 * k + 1)); }
  wstate(q, m); wrun(q, m); } };
VS_HARNESS(geo_dd_fill) { Pick<Fill, STORAGE, true, IFACT, WConf>::p0(); }
