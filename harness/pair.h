// Pair queue: driver, reference model and instrumented pair data. CATS selects what is asserted.
#pragma once
#include "vs.h"
#include <mathic/PairQueue.h>
#include <new>
#ifndef CATS
#define CATS 15
#endif
enum { CatOrder = 1, CatRetire = 2, CatLife = 4, CatFault = 8 };
#define CHK(cat, c, m) do { if ((CATS & (cat)) != 0) vs_assert(c, m); } while (0)

static const unsigned MaxCol = 24;
struct World { // one run's bookkeeping
  uint32_t key[MaxCol][MaxCol]; bool known[MaxCol][MaxCol]; // order key of (col, row)
  bool retired[MaxCol]; bool pending[MaxCol][MaxCol]; unsigned count, cols; long alive; long computed;
  long throwAt, calls; long cmpThrowAt, cmpCalls; unsigned colBase, rowBase;
  void reset() { for (unsigned i = 0; i < MaxCol; ++i) { retired[i] = false; for (unsigned j = 0; j < MaxCol; ++j) { key[i][j] = 0; known[i][j] = pending[i][j] = false; } } count = cols = 0; alive = computed = 0; throwAt = cmpThrowAt = -1; calls = cmpCalls = 0; colBase = rowBase = 0; }
  uint32_t keyOf(unsigned c, unsigned r) { if (!known[c][r]) { known[c][r] = true; key[c][r] = (uint32_t)vs_sym("key", 32); } return key[c][r]; }
};
static World w;
struct Fault {};
struct PD { uint32_t magic; unsigned col, row; uint32_t key;
  PD() : magic(0xa11fe), col(~0u), row(~0u), key(0) { ++w.alive; }
  PD(const PD& o) : magic(0xa11fe), col(o.col), row(o.row), key(o.key) { CHK(CatLife, o.magic == 0xa11fe, "pair data copied before construction or after destruction"); ++w.alive; }
  PD& operator=(const PD& o) { CHK(CatLife, (o.magic == 0xa11fe) & (magic == 0xa11fe), "pair data assigned before construction or after destruction"); col = o.col; row = o.row; key = o.key; return *this; }
  ~PD() { CHK(CatLife, magic == 0xa11fe, "pair data destructed twice or never constructed"); magic = 0xdead; --w.alive; } };

template<bool Retire> struct PConfT { typedef PD PairData; typedef int CompareResult;
  void computePairData(size_t col, size_t row, PD& pd) {
    CHK(CatLife, pd.magic == 0xa11fe, "pair data computed into an object that is not alive");
    col -= w.colBase; row -= w.rowBase; vs_assert((col < MaxCol) & (row < col), "pair data requested for something that is not a pair"); if (col >= MaxCol || row >= col) return;
    CHK(CatRetire, !w.retired[col] & !w.retired[row], "pair data computed for a retired index");
    ++w.computed; if (w.calls++ == w.throwAt) throw Fault();
    pd.col = (unsigned)col; pd.row = (unsigned)row; pd.key = w.keyOf((unsigned)col, (unsigned)row); }
  CompareResult compare(size_t ca, size_t ra, const PD& a, size_t cb, size_t rb, const PD& b) const {
    CHK(CatLife, (a.magic == 0xa11fe) & (b.magic == 0xa11fe), "pair data compared before construction or after destruction");
    CHK(CatOrder, (a.col == ca - w.colBase) & (a.row == ra - w.rowBase) & (b.col == cb - w.colBase) & (b.row == rb - w.rowBase), "a pair was compared using another pair's data");
    if (w.cmpCalls++ == w.cmpThrowAt) throw Fault();
    return (int)(a.key > b.key) - (int)(a.key < b.key); }
  bool cmpLessThan(CompareResult r) const { return r < 0; } };
typedef PConfT<true> PConf; typedef PConfT<false> PConfNR;
namespace mathic { namespace PairQueueNamespace { template<> struct SupportRetirement<PConfNR> { static bool const value = false; }; } }

template<class Q> void pcheck(const Q& q) {
  CHK(CatOrder | CatRetire | CatFault, q.empty() == (w.count == 0), "empty() is wrong");
  CHK(CatOrder | CatFault, q.columnCount() == w.cols + w.colBase, "columnCount() is wrong");
  bool any = false; for (unsigned i = 0; i < w.cols; ++i) any = any | w.retired[i];
  if (!any) CHK(CatOrder | CatFault, q.pairCount() == w.count, "pairCount() differs from the number of pending pairs"); else CHK(CatRetire, q.pairCount() >= w.count, "pairCount() is less than the number of pending pairs");
  if (w.count == 0) return;
  std::pair<size_t, size_t> p = q.topPair(); p.first -= w.colBase; p.second -= w.rowBase; size_t c = vs_concretize(p.first), r = vs_concretize(p.second);
  vs_out(c); vs_out(r);
  vs_assert((c < w.cols) & (r < c), "a pair surfaced that does not exist"); if (c >= w.cols || r >= c) return;
  CHK(CatRetire, !w.retired[c] & !w.retired[r], "a retired pair surfaced");
  CHK(CatOrder | CatRetire | CatFault, w.pending[c][r], "a pair surfaced that is not pending"); 
  const PD& d = q.topPairData(); CHK(CatLife, d.magic == 0xa11fe, "the top pair's data is not alive");
  CHK(CatOrder | CatRetire, (d.col == c) & (d.row == r), "the top pair comes with another pair's data");
  uint32_t k = w.keyOf((unsigned)c, (unsigned)r); bool max = true;
  for (unsigned i = 0; i < w.cols; ++i) for (unsigned j = 0; j < i; ++j) if (w.pending[i][j]) max = max & (w.key[i][j] <= k);
  CHK(CatOrder | CatRetire | CatFault, max, "the top pair is less than a pending pair"); }

static void pforget(size_t c, size_t r) { if (c < w.cols && r < c && w.pending[c][r]) { w.pending[c][r] = false; --w.count; } }
template<class Q> void ppop(Q& q) { std::pair<size_t, size_t> p = q.topPair(); pforget(vs_concretize(p.first - w.colBase), vs_concretize(p.second - w.rowBase)); q.pop(); }
struct Rows { unsigned r[MaxCol]; unsigned n; };
// any sequence of distinct unretired rows; their keys are assumed to descend, as documented
static void pchoose(Rows& rows, unsigned col, bool free) {
  rows.n = 0; unsigned avail[MaxCol], n = 0; for (unsigned i = 0; i < col; ++i) if (!w.retired[i]) avail[n++] = i;
  while (n) { unsigned c = vs_choice("row", free ? n + 1 : 2); if (c == (free ? n : 1)) break; unsigned x = avail[c]; rows.r[rows.n++] = x; for (unsigned i = c; i + 1 < n; ++i) avail[i] = avail[i + 1]; --n; } }
static void pdescend(Rows& rows, unsigned col) { for (unsigned i = 0; i < rows.n; ++i) { w.keyOf(col, rows.r[i]); if (i) vs_assume(w.key[col][rows.r[i]] <= w.key[col][rows.r[i - 1]]); } }
template<class Q> void padd(Q& q, const Rows& rows) { unsigned a[MaxCol]; for (unsigned i = 0; i < rows.n; ++i) a[i] = rows.r[i] + w.rowBase; q.addColumnDescending(a, a + rows.n); unsigned c = w.cols++; for (unsigned i = 0; i < rows.n; ++i) { w.pending[c][rows.r[i]] = true; ++w.count; } }
template<class Q> void paddAny(Q& q, bool free) { Rows r; pchoose(r, w.cols, free); pdescend(r, w.cols); padd(q, r); }
template<class Q> void paddFull(Q& q) { Rows r; r.n = 0; for (unsigned i = 0; i < w.cols; ++i) if (!w.retired[i]) r.r[r.n++] = i; pdescend(r, w.cols); padd(q, r); }
template<class Q> void pretire(Q& q, unsigned i) {
  w.retired[i] = true; for (unsigned c = 0; c < MaxCol; ++c) { pforget(i, c); pforget(c, i); } q.retireIndex(i + w.colBase); CHK(CatRetire, q.retired(i + w.colBase), "retired() forgot an index"); }
template<class Q> void pdrain(Q& q) { pcheck(q); while (w.count) { ppop(q); pcheck(q); } }
// n columns of one pair each with fixed, unordered keys (column 0 stays empty)
template<class Q> void pfill(Q& q, unsigned n) { for (unsigned i = 0; i <= n; ++i) { Rows r; r.n = 0; if (i) { r.r[r.n++] = i / 2; w.known[i][i / 2] = true; w.key[i][i / 2] = 1000 + 10 * ((i * 5) % (n + 1)); } padd(q, r); } }
