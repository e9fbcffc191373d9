#include "pair.h"
// COLS columns are added in any interleaving with pops; then everything surfaces
template<class Conf> static void run(bool retire) {
  w.reset();
  { mathic::PairQueue<Conf> q((Conf())); unsigned COLS = vs_param("COLS", 3), OPS = vs_param("OPS", 2), FREE = vs_param("FREE", 1), FULL = vs_param("FULL", 0); unsigned retired = 0, RET = vs_param("RET", 1);
    pcheck(q);
    if (vs_param("FILL", 0)) { pfill(q, vs_param("FILL", 0)); COLS += w.cols; }
    for (unsigned i = 0; i < FULL; ++i) { paddFull(q); } pcheck(q);
    for (unsigned ops = 0; ops < OPS;) {
      unsigned op = vs_choice("op", retire && retired < RET && w.cols ? 3 : 2);
      if (op == 1 && !w.count) op = 0; if (op == 0 && w.cols >= COLS) { if (!w.count) break; op = 1; }
      if (op == 0) { if (w.cols == 0) paddFull(q); paddAny(q, FREE); }
      else if (op == 1) ppop(q);
      else { unsigned list[MaxCol], n = 0; for (unsigned i = 0; i < w.cols; ++i) if (!w.retired[i]) list[n++] = i; if (n) { pretire(q, list[vs_choice("index", n)]); ++retired; } }
      ++ops; pcheck(q); }
    if (!vs_param("DRAIN", 1) && vs_choice("destroy early", 2)) { }
    else pdrain(q); vs_out(w.computed); }
  CHK(CatLife, w.alive == 0, "pair data outlives the queue"); vs_cover("end"); }
VS_HARNESS(pairs) { run<PConf>(false); }
VS_HARNESS(pairs_noretire) { run<PConfNR>(false); }
VS_HARNESS(pairs_retire) { run<PConf>(true); }
// N empty columns, then one with any sequence of distinct rows and one with two of them
VS_HARNESS(pairs_col) {
  w.reset();
  { mathic::PairQueue<PConf> q((PConf())); unsigned N = vs_param("N", 5); Rows r; r.n = 0; for (unsigned i = 0; i < N; ++i) padd(q, r); pcheck(q);
    paddAny(q, true); pcheck(q); if (vs_param("MORE", 0)) { paddAny(q, false); pcheck(q); } pdrain(q); }
  CHK(CatLife, w.alive == 0, "pair data outlives the queue"); vs_cover("end"); }
// columns whose index needs the wide representation
VS_HARNESS(pairs_big) {
  w.reset(); w.colBase = 0;
  { mathic::PairQueue<PConf> q((PConf())); unsigned base = vs_param("BASE", 65534); unsigned* none = 0; for (unsigned i = 0; i < base; ++i) q.addColumnDescending(none, none); w.colBase = base; if (vs_param("WIDEROWS", 0)) w.rowBase = base;
    w.cols = 0; unsigned N = vs_param("COLS", 3);
    for (unsigned c = 0; c < N; ++c) { Rows r; pchoose(r, w.cols, false); pdescend(r, w.cols); padd(q, r); pcheck(q); }
    if (vs_param("RET", 0)) { unsigned x = vs_choice("index", N); w.retired[x] = true; for (unsigned c = 0; c < MaxCol; ++c) { pforget(x, c); if (w.rowBase) pforget(c, x); } q.retireIndex(base + x); pcheck(q); }
    pdrain(q); }
  CHK(CatLife, w.alive == 0, "pair data outlives the queue"); vs_cover("end"); }
