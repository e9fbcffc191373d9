#include "pq.h"
#include <mathic/StlSet.h>
typedef mathic::StlSet<OrderConf> Q;
template<> struct Ops<Q> { static void dec(Q& q, Model& m) { doPop(q, m); } static void clear(Q&) {} static void all(const Q&, const Model&) {} };
VS_HARNESS(stlset) { Q q((OrderConf())); fullHistory(q); }
