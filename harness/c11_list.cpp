#include "div.h"
#include <mathic/DivList.h>
template<class C> struct DOps<mathic::DivList<C> > { typedef mathic::DivList<C> D; static const bool canClear = false; static void clear(D&, Model&) {}
  static bool canFront(D& d) { return !d.getConfiguration().getSortOnInsert(); } // reordering a sorted list is not allowed
  static std::vector<unsigned> order(D& d) { std::vector<unsigned> r; for (typename D::iterator it = d.begin(); it != d.end(); ++it) r.push_back((unsigned)vs_concretize(it->id)); return r; }
  // finds a divisor, moves it to the front: nothing else changes
  static void front(D& d, Model& m) { Mono q = symMono(); typename D::iterator f = d.findDivisorIterator(q); bool any = false; for (unsigned i = 0; i < m.n; ++i) any = any | (m.held[i] && divs(m.m[i], q));
    if (f == d.end()) { vs_assert(!any, "a divisor is found whenever one is held"); return; }
    unsigned id = (unsigned)vs_concretize(f->id); vs_assert(id < m.n && m.held[id], "the divisor found is an entry that is held"); vs_assert(divs(m.m[id], q), "the divisor found divides");
    std::vector<unsigned> a = order(d); d.moveToFront(f); std::vector<unsigned> b = order(d), e; e.push_back(id); for (unsigned i = 0; i < a.size(); ++i) if (a[i] != id) e.push_back(a[i]);
    vs_assert(b == e, "moving to the front changes only the place of that entry"); vs_cover("moved"); } };
// iteration, order and size, through the iterators
template<class D> static void checkList(D& d, const Model& m) { const D& c = d; unsigned n = 0; bool held = true, sorted = true, eq = true; const Ent* prev = 0; unsigned cnt[MAXE] = {};
  for (typename D::const_iterator it = c.begin(); it != c.end(); ++it) { unsigned id = (unsigned)vs_concretize(it->id); if (id >= m.n || !m.held[id]) held = false; else { eq = eq & same(m.m[id], it->m); held = held && cnt[id]++ == 0; } if (prev) sorted = sorted & !lex(it->m, prev->m); prev = &*it; ++n; }
  vs_assert(held && n == m.count() && n == d.size() && d.empty() == (n == 0), "iteration visits every held entry once and agrees with size"); vs_assert(eq, "held entries keep their monomial");
  if (d.getConfiguration().getSortOnInsert()) vs_assert(sorted, "a sorted list stays sorted"); }
struct Hist { template<class T> void run() const { { T t((typename T::Configuration(options()))); Model m; history(t, m); } vs_assert(g_live == 0, "destroying the list destroys every entry once"); vs_cover("end"); } };
// the model is needed for the order check
struct HistOrder { template<class T> void run() const { { T t((typename T::Configuration(options()))); Model m; fillWith(t, m); unsigned K = vs_param("K", 2), OPS = vs_param("OPS", 1); unsigned long kinds = vs_param("KINDS", 1);
    for (unsigned i = 0; i < K; ++i) t.insert(m.add(symMono()));
    unsigned ks[16], nk = 0; for (unsigned i = 0; i < 9; ++i) if ((kinds >> i & 1) && i != 5 && (i != 7 || DOps<T>::canFront(t))) ks[nk++] = i;
    if (nk) for (unsigned i = 0; i < OPS; ++i) { doOp(t, m, ks[vs_choice("op", nk)]); checkList(t, m); } } vs_assert(g_live == 0, "destroying the list destroys every entry once"); vs_cover("end"); } };
template<class F> static void withList(const F& f) {
  switch (pick("LIST", 4)) {
  case 0: f.template run<mathic::DivList<DConf<false, false, 1, false, false, true> > >(); break;
  case 1: f.template run<mathic::DivList<DConf<true, false, 1, false, false, true> > >(); break;
  case 2: f.template run<mathic::DivList<DConf<false, false, 1, false, true, true> > >(); break;
  case 3: f.template run<mathic::DivList<DConf<true, false, 1, false, true, true> > >(); break;
  } }
VS_HARNESS(list) { withList(Hist()); }
VS_HARNESS(list_order) { withList(HistOrder()); }
