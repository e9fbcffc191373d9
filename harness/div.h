// Divisor finders: configuration, model of the held entries, and checks shared by the list and the k-d trees.
#pragma once
#include <vs.h>
#include <stdexcept>
#include <vector>
#ifndef VARS
#define VARS 2
#endif
#ifndef BITS
#define BITS 4 // exponents are arbitrary values of this many bits
#endif
#ifndef MAXE
#define MAXE 24
#endif
#ifndef EXP
#define EXP unsigned
#endif
typedef EXP Exp;
struct Mono { Exp e[VARS]; };
static long g_live = 0; static int g_inside = 0;
// an entry keeps count of live objects and knows whether it is one
struct Ent { Mono m; unsigned id, alive; static const unsigned Yes = 0x5a5a, No = 0xdead;
  Ent(): id(MAXE - 1), alive(Yes) { for (unsigned v = 0; v < VARS; ++v) m.e[v] = 0; ++g_live; }
  Ent(const Mono& mm, unsigned i): m(mm), id(i), alive(Yes) { ++g_live; }
  Ent(const Ent& o): m(o.m), id(o.id), alive(Yes) { vs_assert(o.alive == Yes, "copies a live entry"); ++g_live; }
  Ent& operator=(const Ent& o) { vs_assert((alive == Yes) & (o.alive == Yes), "assigns between live entries"); m = o.m; id = o.id; return *this; }
  ~Ent() { vs_assert(alive == Yes, "destroys a live entry"); alive = No; --g_live; } };
static inline bool divs(const Mono& a, const Mono& b) { bool r = true; for (unsigned v = 0; v < VARS; ++v) r = r & (a.e[v] <= b.e[v]); return r; }
static inline bool same(const Mono& a, const Mono& b) { bool r = true; for (unsigned v = 0; v < VARS; ++v) r = r & (a.e[v] == b.e[v]); return r; }
static inline bool lex(const Mono& a, const Mono& b) { bool r = false; for (unsigned v = VARS; v-- > 0;) r = (a.e[v] < b.e[v]) | ((a.e[v] == b.e[v]) & r); return r; }
struct Opt { bool sort, cache, autob; double ratio; size_t min; };
template<bool Mask, bool TreeMask, size_t Leaf, bool Packed, bool Linked, bool Removals> struct DConf {
  typedef Mono Monomial; typedef Ent Entry; typedef Exp Exponent;
  static const bool UseDivMask = Mask, UseTreeDivMask = TreeMask, PackedTree = Packed, UseLinkedList = Linked, AllowRemovals = Removals;
  static const size_t LeafSize = Leaf;
  Opt o; explicit DConf(const Opt& oo): o(oo) {}
  Exponent getExponent(const Mono& m, size_t v) const { vs_assert(v < VARS, "variable index in range"); return m.e[v]; }
  Exponent getExponent(const Ent& e, size_t v) const { vs_assert((e.alive == Ent::Yes) & (v < VARS), "reads a live entry"); return e.m.e[v]; }
  bool divides(const Mono& a, const Mono& b) const { return divs(a, b); }
  bool divides(const Ent& a, const Mono& b) const { vs_assert(a.alive == Ent::Yes, "reads a live entry"); return divs(a.m, b); }
  bool divides(const Mono& a, const Ent& b) const { vs_assert(b.alive == Ent::Yes, "reads a live entry"); return divs(a, b.m); }
  bool divides(const Ent& a, const Ent& b) const { return divs(a.m, b.m); }
  bool isLessThan(const Mono& a, const Mono& b) const { return lex(a, b); }
  bool isLessThan(const Ent& a, const Mono& b) const { return lex(a.m, b); }
  bool isLessThan(const Mono& a, const Ent& b) const { return lex(a, b.m); }
  bool isLessThan(const Ent& a, const Ent& b) const { return lex(a.m, b.m); }
  size_t getVarCount() const { return VARS; }
  bool getSortOnInsert() const { return o.sort; }
  bool getDoAutomaticRebuilds() const { return o.autob; }
  double getRebuildRatio() const { return o.ratio; }
  size_t getRebuildMin() const { return o.min; }
  bool getUseDivisorCache() const { return o.cache; }
  size_t getLeafSize() const { return Leaf; }
};
static inline Mono symMono() { Mono m; for (unsigned v = 0; v < VARS; ++v) m.e[v] = (Exp)vs_sym("exponent", BITS); return m; }
struct Model { unsigned n; Mono m[MAXE]; bool held[MAXE]; Model(): n(0) {}
  Ent add(const Mono& x) { m[n] = x; held[n] = true; return Ent(x, n++); }
  void undo() { held[--n] = false; }
  unsigned count() const { unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += held[i]; return c; } };
struct Stopped {};
// output of a query: counts reports per entry, may stop or throw at a chosen report
struct Out { unsigned cnt[MAXE], total; long stopAt; bool thr, ended; std::vector<unsigned> order;
  explicit Out(long s = -1, bool t = false): total(0), stopAt(s), thr(t), ended(false) { for (unsigned i = 0; i < MAXE; ++i) cnt[i] = 0; }
  bool proceed(const Ent& e) { vs_assert(!ended, "no report after the output asked to stop"); vs_assert(e.alive == Ent::Yes, "reports a live entry");
    unsigned id = (unsigned)vs_concretize(e.id); vs_assert(id < MAXE, "reports a known entry"); ++cnt[id]; order.push_back(id);
    if ((long)total++ == stopAt) { ended = true; if (thr) throw Stopped(); return false; } return true; }
  void push_back(Ent& e) { proceed(e); } };
enum Rel { Divisors, Multiples, All };
static inline bool rel(Rel r, const Mono& x, const Mono& q) { return r == Divisors ? divs(x, q) : r == Multiples ? divs(q, x) : true; }
static void expect(const Out& o, const Model& m, Rel r, const Mono& q) { bool ok = true, some = false;
  for (unsigned i = 0; i < m.n; ++i) { bool in = m.held[i] && rel(r, m.m[i], q); ok = ok & (o.cnt[i] == (unsigned)in); }
  vs_assert(ok, r == Divisors ? "exactly the held divisors are reported, each once" : r == Multiples ? "exactly the held multiples are reported, each once" : "exactly the held entries are visited, each once"); (void)some; }
// after a stop: what was reported is right as far as it goes
static void expectPart(const Out& o, const Model& m, Rel r, const Mono& q) { bool ok = true, all = true;
  for (unsigned i = 0; i < m.n; ++i) { bool in = m.held[i] && rel(r, m.m[i], q); ok = ok & (o.cnt[i] <= (unsigned)in); all = all & (o.cnt[i] == (unsigned)in); }
  vs_assert(ok, "a stopped query reports only entries that qualify, each at most once");
  if (!o.ended) vs_assert(all, "a query that was not stopped reports everything"); }
template<class D> static void checkFind(D& d, const Model& m, const Mono& q, bool viaConst) {
  const Ent* f = viaConst ? ((const D&)d).findDivisor(q) : d.findDivisor(q);
  bool any = false; for (unsigned i = 0; i < m.n; ++i) any = any | (m.held[i] && divs(m.m[i], q));
  if (f == 0) { vs_assert(!any, "a divisor is found whenever one is held"); vs_out(99); return; }
  unsigned id = (unsigned)vs_concretize(f->id); vs_assert(f->alive == Ent::Yes && id < m.n && m.held[id], "the divisor found is an entry that is held");
  vs_assert(divs(m.m[id], q) & same(m.m[id], f->m), "the divisor found divides"); vs_out(id); }
template<class D> static void checkAll(D& d, const Model& m) {
  Out o; d.forAll(o); expect(o, m, All, Mono());
  vs_assert(d.size() == m.count() && d.empty() == (m.count() == 0), "size and empty agree with what is held"); }
template<class D> struct DOps; // clear, range insertion, reordering: what the structure offers
// runs one operation; false if the kind is not offered
template<class D> static void doOp(D& d, Model& m, unsigned kind) {
  switch (kind) {
  case 0: d.insert(m.add(symMono())); break;
  case 1: { Mono q = symMono(); bool any = false; for (unsigned i = 0; i < m.n; ++i) any = any | (m.held[i] && divs(q, m.m[i]));
    if (vs_param("DUMMY", 0)) { bool r = d.removeMultiples(q); vs_assert(r == any, "removing multiples tells whether there were any");
      Out a; d.forAll(a); for (unsigned i = 0; i < m.n; ++i) if (m.held[i]) { vs_assert((a.cnt[i] == 0) == divs(q, m.m[i]), "exactly the multiples are removed"); m.held[i] = a.cnt[i] != 0; } }
    else { Out o; bool r = d.removeMultiples(q, o); expect(o, m, Multiples, q); vs_assert(r == any, "removing multiples tells whether there were any"); for (unsigned i = 0; i < m.n; ++i) if (o.cnt[i]) m.held[i] = false; }
    break; }
  case 2: { Mono q = symMono(); bool any = false; for (unsigned i = 0; i < m.n; ++i) any = any | (m.held[i] && same(q, m.m[i]));
    bool r = d.removeElement(q); vs_assert(r == any, "removing an element tells whether it was held");
    Out o; d.forAll(o); unsigned gone = 0; bool eq = true;
    for (unsigned i = 0; i < m.n; ++i) if (m.held[i] && !o.cnt[i]) { ++gone; eq = eq & same(m.m[i], q); m.held[i] = false; }
    vs_assert(eq & (gone == (unsigned)r), "removing an element removes one occurrence of it"); break; }
  case 3: d.rebuild(); break;
  case 4: checkFind(d, m, symMono(), false); break;
  case 5: DOps<D>::clear(d, m); break;
  case 6: { unsigned n = vs_choice("range", 3) + 1; Ent r[4] = {}; for (unsigned i = 0; i < n; ++i) r[i] = m.add(symMono()); d.insert(r, r + n); break; }
  case 7: DOps<D>::front(d, m); break;
  case 8: { Rel r = (Rel)vs_choice("query", 3); Out o((long)vs_choice("stopAt", vs_param("STOPS", 2)), vs_choice("throws", 2)); Mono q = r == All ? Mono() : symMono();
    try { if (r == Divisors) d.findAllDivisors(q, o); else if (r == Multiples) d.findAllMultiples(q, o); else d.forAll(o); } catch (const Stopped&) { vs_cover("thrown"); }
    expectPart(o, m, r, q); break; }
  } }
template<class D> static void finalChecks(D& d, Model& m) { long what = vs_param("FINAL", 15); unsigned ks[4], nk = 0; for (unsigned i = 0; i < 4; ++i) if (what >> i & 1) ks[nk++] = i;
  switch (ks[vs_choice("final", nk)]) {
  case 0: checkFind(d, m, symMono(), true); break;
  case 1: { Out o; Mono q = symMono(); ((const D&)d).findAllDivisors(q, o); expect(o, m, Divisors, q); vs_out(o.total); break; }
  case 2: { Out o; Mono q = symMono(); ((const D&)d).findAllMultiples(q, o); expect(o, m, Multiples, q); vs_out(o.total); break; }
  case 3: { checkAll(d, m); Out o; ((const D&)d).forAll(o); expect(o, m, All, Mono()); vs_out(o.total); break; } } }
// concrete fill: a pattern of monomials that makes the trees deep
template<class D> static void fillWith(D& d, Model& m) { unsigned N = vs_param("N", 0), pat = N ? (unsigned)vs_param("PAT", -1) : 0; if (pat == ~0u) pat = vs_choice("pattern", vs_param("PATS", 3)); const unsigned top = BITS >= 31 ? 0x7fffffffu : (1u << (BITS % 32)) - 1;
  unsigned s = pat * 2654435761u;
  for (unsigned i = 0; i < N;) { Mono x; for (unsigned v = 0; v < VARS; ++v) { s = s * 1103515245u + 12345u; unsigned k = pat == 0 ? (v % 2 ? N - 1 - i : i) : pat == 1 ? (i * (3 + 2 * v) + v) % (N + v) : pat == 2 ? i >> v : (s >> 16) % (pat % 2 ? top + 1 : N / 2 + 3); x.e[v] = k > top ? top : k; }
    bool dup = false; if (pat > 2) for (unsigned j = 0; j < i; ++j) dup = dup | same(m.m[j], x); // patterns from 3 on are pseudo-random distinct monomials
    if (!dup) { d.insert(m.add(x)); ++i; } } }
template<class D> static void history(D& d, Model& m) { fillWith(d, m);
  unsigned K = vs_param("K", 2), OPS = vs_param("OPS", 1); unsigned long kinds = vs_param("KINDS", 1);
  for (unsigned i = 0; i < K; ++i) d.insert(m.add(symMono()));
  unsigned ks[16], nk = 0; for (unsigned i = 0; i < 9; ++i) if ((kinds >> i & 1) && (i != 7 || DOps<D>::canFront(d)) && (i != 5 || DOps<D>::canClear)) ks[nk++] = i;
  for (unsigned i = 0; i < OPS; ++i) doOp(d, m, ks[vs_choice("op", nk)]);
  finalChecks(d, m); }
static Opt options() { Opt o; long f = vs_param("OPT", -1); unsigned c = f < 0 ? vs_choice("options", vs_param("OPTS", 8)) : (unsigned)f; o.sort = c & 1; o.cache = c & 2; o.autob = c & 4;
  o.ratio = vs_param("RATIO10", 5) / 10.0; o.min = vs_param("RMIN", 1); return o; }
static unsigned pick(const char* n, unsigned k) { long f = vs_param(n, -1); return f < 0 ? vs_choice(n, k) : (unsigned)f; }
