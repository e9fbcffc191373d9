#include <vs.h>
#include <vector>
#include <mathic/DivMask.h>
#ifndef VARS
#define VARS 2
#endif
#ifndef EXP
#define EXP int
#endif
#ifndef BITS
#define BITS 31
#endif
typedef EXP Exp;
typedef mathic::DivMask DM;
struct Mono { Exp e[VARS]; };
struct Conf { typedef Mono Monomial; typedef Mono Entry; typedef Exp Exponent; static const bool UseDivMask = true;
  size_t getVarCount() const { return VARS; } Exp getExponent(const Mono& m, size_t v) const { vs_assert(v < VARS, "variable index in range"); return m.e[v]; }
  bool divides(const Mono& a, const Mono& b) const { bool r = true; for (unsigned v = 0; v < VARS; ++v) r = r & (a.e[v] <= b.e[v]); return r; } };
typedef DM::Calculator<Conf> Calc;
// the first SYMV variables are arbitrary, the others spread out
static Mono mono(unsigned seed) { Mono m; unsigned s = vs_param("SYMV", VARS); for (unsigned v = 0; v < VARS; ++v) m.e[v] = v < s ? (Exp)vs_sym("exponent", BITS) : (Exp)(1 + (v * 7 + seed * 11) % 90); return m; }
// DIRECT skips comparisons while building: exponents of the training set are made concrete choices
static void train(Calc& calc, const Conf& c, unsigned K) { std::vector<Mono> t; for (unsigned i = 0; i < K; ++i) t.push_back(mono(i)); calc.rebuild(t.begin(), t.end(), c); }
// a divides b: the mask of a must be accepted
static void sound(const Calc& calc, const Conf& c) { Mono a = mono(3), b = mono(3);
  vs_assume(c.divides(a, b));
  DM x(a, calc, c), y(b, calc, c); vs_assert(x.canDivide(y), "the mask of a divisor is accepted");
  DM z; z.recalculate(a, calc, c); vs_assert(z == x && !(z != x), "recomputing a mask gives the same mask");
  vs_assert(z.canDivide(DM::getMaxMask()), "the default mask of a monomial rules nothing out"); vs_cover("end"); }
VS_HARNESS(mask_default) { Conf c; Calc calc(c); sound(calc, c); }
VS_HARNESS(mask_rebuilt) { Conf c; Calc calc(c); train(calc, c, vs_param("K", 2)); if (vs_param("AGAIN", 0)) { calc.rebuildDefault(c); if (vs_choice("again", 2)) train(calc, c, vs_param("K", 2)); } sound(calc, c); }
VS_HARNESS(mask_empty) { Conf c; Calc calc(c); std::vector<Mono> none; calc.rebuild(none.begin(), none.end(), c); sound(calc, c); }
// masks of extended entries, as the finders hold them, and lower bounds over several of them
typedef DM::Extender<Mono, true> Ext; typedef DM::Extender<const Mono&, true> Ref;
struct Bound : DM::HasDivMask<true> { };
VS_HARNESS(mask_bound) { Conf c; Calc calc(c); unsigned K = vs_param("K", 0); if (K) train(calc, c, K);
  Mono m[3]; Bound low; unsigned N = vs_param("N", 3); for (unsigned i = 0; i < N; ++i) { m[i] = mono(i); Ext e(m[i], calc, c); low.updateToLowerBound(e); }
  Bound two; two.updateToLowerBound(low); Mono q = mono(1); Ref r(q, calc, c); bool any = false, ok = true;
  for (unsigned i = 0; i < N; ++i) { Ext e(m[i], calc, c); bool d = c.divides(m[i], q); any = any | d; ok = ok & (e.canDivide(r) | !d); vs_assert(e.divides(r, c) == d, "divisibility through masks is divisibility");
    Ref s(q, calc, c); s.recalculateDivMask(calc, c); vs_assert(e.divides(s, c) == d, "divisibility through recomputed masks is divisibility"); }
  vs_assert(ok, "the mask of a divisor is accepted"); vs_assert((low.canDivide(r) & two.canDivide(r)) | !any, "a bound over several monomials is accepted wherever one of them divides"); vs_cover("end"); }
VS_HARNESS(mask_reset) { Conf c; Calc calc(c); Bound b; Mono a = mono(0); Ext e(a, calc, c); b.updateToLowerBound(e); vs_assert(b.canDivide(e) & e.canDivide(b), "the bound over one monomial is its mask"); b.resetDivMask(); Ext x; x.resetDivMask(); vs_assert(e.canDivide(x), "a reset mask is divided by every mask"); vs_cover("end"); }
