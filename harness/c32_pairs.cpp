// Memory use of the pair queue and the hash table.
#include "pair.h"
#include "mem.h"
#include <mathic/HashTable.h>
template<class Conf> static void pairs(bool retire) {
  w.reset(); Held h;
  { mathic::PairQueue<Conf> q((Conf())); h.nearly(q.getMemoryUse(), 1); unsigned COLS = vs_param("COLS", 3), OPS = vs_param("OPS", 2), FULL = vs_param("FULL", 0); unsigned EMPTY = vs_param("EMPTY", 0); Rows none; none.n = 0;
    for (unsigned i = 0; i < EMPTY; ++i) { padd(q, none); h.nearly(q.getMemoryUse(), 1); }
    COLS += EMPTY; for (unsigned i = 0; i < FULL; ++i) { paddFull(q); h.nearly(q.getMemoryUse(), 1); }
    for (unsigned i = 0; i < OPS; ++i) { unsigned op = vs_choice("op", retire && w.cols ? 3 : 2); if (op == 1 && !w.count) op = 0; if (op == 0 && w.cols >= COLS) { if (!w.count) break; op = 1; }
      if (op == 0) paddAny(q, false); else if (op == 1) ppop(q);
      else { unsigned list[MaxCol], n = 0; for (unsigned j = 0; j < w.cols; ++j) if (!w.retired[j]) list[n++] = j; if (n) pretire(q, list[vs_choice("index", n)]); }
      h.nearly(q.getMemoryUse(), 1); } }
  h.none(); }
VS_HARNESS(mem_pairs) { pairs<PConf>(true); }
VS_HARNESS(mem_pairs_noretire) { pairs<PConfNR>(false); }
struct HConf { typedef unsigned Key; typedef unsigned Value; size_t hash(unsigned k) const { return (size_t)k * 0x9e3779b1u; } bool keysEqual(unsigned a, unsigned b) const { return a == b; } };
VS_HARNESS(mem_hash) { Held h; { HConf c; typedef mathic::HashTable<HConf> T; T t(c, (unsigned)vs_choice("bits", vs_param("BITS", 3))); unsigned blocks = 64; h.nearly(t.memoryUse(), blocks); unsigned N = vs_param("N", 5); T::Handle* last = 0;
    for (unsigned i = 0; i < N; ++i) { last = t.insert(i, i).second; h.nearly(t.memoryUse(), blocks); }
    for (unsigned i = 0; i < (unsigned)vs_param("OPS", 2); ++i) { unsigned k = (unsigned)vs_sym("key", 8); vs_assume(k < N + 2); switch (vs_choice("op", 3)) {
      case 0: last = t.insert(k, k).second; break;
      case 1: t.lookup(k); break;
      case 2: if (last) { t.remove(last); last = 0; } break; }
      h.nearly(t.memoryUse(), blocks); } } h.none(); }
