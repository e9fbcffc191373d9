// Bit triangle: arbitrary writes read back, nothing else changes.
#include <vs.h>
#include <mathic/BitTriangle.h>
static void columns(mathic::BitTriangle& b, unsigned n) { for (unsigned i = 0; i < n; ++i) { size_t c = b.columnCount(); vs_assert(b.empty() == (c == 0), "empty() is wrong"); b.addColumn(); vs_assert(b.columnCount() == c + 1, "a column was not added"); vs_assert(!b.empty(), "empty() is wrong"); } }
struct Write { unsigned c, r; bool v; };
// an arbitrary pair with row < column; the column is branched over, the row stays symbolic
static void pickPair(unsigned cols, unsigned& c, unsigned& r) { unsigned lo = vs_param("FROM", 1); c = lo + vs_choice("column", cols - lo); unsigned b = 1; while (c >> b) ++b; r = (unsigned)vs_sym("row", b); vs_assume(r < c); }
VS_HARNESS(bits) {
  unsigned N = vs_param("N", 5), W = vs_param("W", 2), MORE = vs_param("MORE", 2); mathic::BitTriangle b; columns(b, N); Write w[8]; unsigned n = 0;
  for (unsigned i = 0; i < W; ++i) { Write& x = w[n]; pickPair((unsigned)b.columnCount(), x.c, x.r); x.v = vs_sym("value", 1) != 0;
    if (vs_choice("unordered", 2)) { if (vs_choice("swapped", 2)) b.setBitUnordered(x.r, x.c, x.v); else b.setBitUnordered(x.c, x.r, x.v); } else b.setBit(x.c, x.r, x.v); ++n;
    if (i == 0) columns(b, MORE); }
  const mathic::BitTriangle& cb = b; unsigned c, r; pickPair((unsigned)b.columnCount(), c, r); bool want = false; for (unsigned i = 0; i < n; ++i) { bool hit = (w[i].c == c) & (w[i].r == r); want = (hit & w[i].v) | (!hit & want); }
  bool got = cb.bit(c, r); vs_assert(got == want, "a bit differs from the last value written to it, or false"); vs_assert(cb.bitUnordered(c, r) == want, "reading with the arguments in this order gives another bit"); vs_assert(cb.bitUnordered(r, c) == want, "reading with the arguments in the other order gives another bit"); vs_out(got); vs_cover("end"); }
// every pair of a small triangle, whole contents compared; copies are independent
VS_HARNESS(bits_all) {
  unsigned N = vs_param("N", 3); mathic::BitTriangle b; bool m[12][12] = {}; columns(b, N);
  for (unsigned i = 0; i < (unsigned)vs_param("W", 2); ++i) { unsigned c, r; pickPair((unsigned)b.columnCount(), c, r); r = (unsigned)vs_concretize(r); bool v = vs_sym("value", 1) != 0; b.setBit(c, r, v); m[c][r] = v; if (vs_choice("grow", 2)) columns(b, 1);
    unsigned k = (unsigned)b.columnCount(); bool ok = true; for (unsigned x = 0; x < k; ++x) for (unsigned y = 0; y < x; ++y) ok = ok & (b.bit(x, y) == m[x][y]); vs_assert(ok, "the triangle differs from what was written"); }
  mathic::BitTriangle o(b); unsigned k = (unsigned)b.columnCount(); vs_assert(o.columnCount() == k, "a copy has another size"); unsigned c, r; pickPair(k, c, r); bool was = b.bit(c, r); o.setBit(c, r, !was); vs_assert(b.bit(c, r) == was, "writing to a copy changes the original"); vs_assert(o.bit(c, r) == !was, "a copy loses a write"); vs_assert(b.getMemoryUse() > 0, "memory use is zero"); vs_cover("end"); }
