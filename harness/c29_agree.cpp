#include "kd.h"
#include <mathic/DivList.h>
template<class C> struct DOps<mathic::DivList<C> > { static const bool canClear = false; };
// held ids after removals, through the output of the query
template<class D> static void heldBy(D& d, const Model& m, Out& o) { d.forAll(o); (void)m; }
template<class L, class B, class P> static void agree() { Model m; {
  L l((typename L::Configuration(options()))); B b((typename B::Configuration(options()))); P p((typename P::Configuration(options())));
  unsigned K = vs_param("K", 2), OPS = vs_param("OPS", 1), N = vs_param("N", 0); unsigned long kinds = vs_param("KINDS", 1); unsigned ks[8], nk = 0; for (unsigned i = 0; i < 4; ++i) if (kinds >> i & 1) ks[nk++] = i;
  try {
    for (unsigned i = 0; i < N; ++i) { Mono x; for (unsigned v = 0; v < VARS; ++v) x.e[v] = v % 2 ? N - i : i + 1; Ent e = m.add(x); l.insert(e); b.insert(e); p.insert(e); }
    for (unsigned i = 0; i < K + OPS; ++i) { unsigned op = i < K ? 0 : ks[vs_choice("op", nk)];
      if (op == 0) { Ent e = m.add(symMono()); l.insert(e); b.insert(e); p.insert(e); }
      else if (op == 1) { Mono q = symMono(); Out x, y, z; bool r = l.removeMultiples(q, x), s = b.removeMultiples(q, y), t = p.removeMultiples(q, z); bool same3 = true; for (unsigned j = 0; j < m.n; ++j) { same3 = same3 & (x.cnt[j] == y.cnt[j]) & (x.cnt[j] == z.cnt[j]); if (x.cnt[j]) m.held[j] = false; } vs_assert(same3 && r == s && r == t, "all finders remove the same multiples"); }
      else if (op == 2) { Mono q = symMono(); bool r = l.removeElement(q), s = b.removeElement(q), t = p.removeElement(q); vs_assert(r == s && r == t, "all finders agree whether an element was held"); }
      else { l.rebuild(); b.rebuild(); p.rebuild(); } }
  } catch (const std::logic_error&) { refused(m, B::Configuration::LeafSize); vs_cover("end"); vs_assume(false); }
  vs_assert(l.size() == b.size() && l.size() == p.size(), "all finders hold equally many entries");
  { Mono q = symMono(); const Ent *x = l.findDivisor(q), *y = b.findDivisor(q), *z = p.findDivisor(q); vs_assert((x == 0) == (y == 0) && (x == 0) == (z == 0), "all finders agree whether a divisor is held"); vs_out(x != 0);
    Out d1, d2, d3; l.findAllDivisors(q, d1); b.findAllDivisors(q, d2); p.findAllDivisors(q, d3); Out m1, m2, m3; l.findAllMultiples(q, m1); b.findAllMultiples(q, m2); p.findAllMultiples(q, m3);
    vs_assert((x == 0) == (d1.total == 0), "a divisor is found exactly when enumeration reports one");
    vs_assert(d1.total == d2.total && d1.total == d3.total && m1.total == m2.total && m1.total == m3.total, "all finders report equally many divisors and multiples"); }
  Out a, c, e; l.forAll(a); b.forAll(c); p.forAll(e);
  // the multiset of monomials: removing one of several equal entries may leave any of them
  bool eq = true; for (unsigned i = 0; i < m.n; ++i) { unsigned x = 0, y = 0, z = 0; for (unsigned j = 0; j < m.n; ++j) { unsigned s = same(m.m[i], m.m[j]); x += s * a.cnt[j]; y += s * c.cnt[j]; z += s * e.cnt[j]; } eq = eq & (x == y) & (x == z); }
  vs_assert(eq, "all finders hold the same entries"); }
  vs_assert(g_live == 0, "destroying the finders destroys every entry once"); vs_cover("end"); }
template<bool M, bool T, size_t Leaf, bool Linked> static void cfg() { agree<mathic::DivList<DConf<M, false, 1, false, Linked, true> >, mathic::KDTree<DConf<M, T, Leaf, false, false, true> >, mathic::KDTree<DConf<M, T, Leaf, true, false, true> > >(); }
VS_HARNESS(agree3) { switch (pick("CFG", 4)) { case 0: cfg<false, false, 1, false>(); break; case 1: cfg<false, false, 2, true>(); break; case 2: cfg<true, false, 1, true>(); break; case 3: cfg<true, true, 2, false>(); break; } }
