// Reference model and driver shared by the priority queue harnesses.
#pragma once
#include "vs.h"
#include <vector>
#include <cstddef>

static const unsigned KeyBits = 32; // any order type on up to 64 elements
static const unsigned MaxIds = 64;

struct Ent { uint32_t key; uint32_t id; };
inline int cmpKeys(uint32_t a, uint32_t b) { return (int)(a > b) - (int)(a < b); }

// Order shared by all configurations; larger keys surface first.
struct OrderConf {
  typedef Ent Entry;
  typedef int CompareResult;
  CompareResult compare(const Entry& a, const Entry& b) const { return cmpKeys(a.key, b.key); }
  bool cmpLessThan(CompareResult r) const { return r < 0; }
  bool cmpEqual(CompareResult r) const { return r == 0; }
};

// What has been pushed and not yet removed.
struct Model {
  uint32_t key[MaxIds]; bool alive[MaxIds]; unsigned n, count;
  Model() : n(0), count(0) { for (unsigned i = 0; i < MaxIds; ++i) { alive[i] = false; key[i] = 0; } }
  Ent fresh() { Ent e; e.key = (uint32_t)vs_sym("key", KeyBits); e.id = n; key[n] = e.key; alive[n] = true; ++n; ++count; return e; }
  Ent put(uint32_t k) { Ent e; e.key = k; e.id = n; key[n] = k; alive[n] = true; ++n; ++count; return e; }
  bool isMax(uint32_t k) const { bool ok = true; for (unsigned i = 0; i < n; ++i) if (alive[i]) ok = ok & (key[i] <= k); return ok; }
  void checkTop(const Ent& e) const {
    unsigned id = (unsigned)vs_concretize(e.id);
    vs_assert(id < n, "an entry surfaced that was never pushed"); if (id >= n) return;
    vs_assert(alive[id], "an entry surfaced that is not held"); vs_assert(e.key == key[id], "an entry surfaced with another entry's value");
    vs_assert(isMax(e.key), "the surfaced entry is less than a held entry");
    vs_out(e.key); }
  void remove(const Ent& e) { unsigned id = (unsigned)vs_concretize(e.id); if (id < n && alive[id]) { alive[id] = false; --count; } }
};

struct Visitor { // forAll callback: every held element exactly once
  unsigned seen[MaxIds]; unsigned total; Visitor() : total(0) { for (unsigned i = 0; i < MaxIds; ++i) seen[i] = 0; }
  bool proceed(const Ent& e) { unsigned id = (unsigned)vs_concretize(e.id); if (id < MaxIds) ++seen[id]; ++total; return true; } };

template<class Q> void checkForAll(const Q& q, const Model& m) {
  Visitor v; q.forAll(v); vs_assert(v.total == m.count, "iteration visits a different number of elements than held");
  for (unsigned i = 0; i < m.n; ++i) vs_assert(v.seen[i] == (m.alive[i] ? 1u : 0u), "iteration misses, repeats or invents an element"); }

// size() is optional (TourTree and StlSet have none)
template<class Q> auto qsize(const Q& q, size_t, int) -> decltype((size_t)q.size()) { return q.size(); }
template<class Q> size_t qsize(const Q&, size_t want, long) { return want; }
template<class Q> void checkState(const Q& q, const Model& m) {
  vs_assert(qsize(q, m.count, 0) == m.count, "size() differs from the number of held elements");
  vs_assert(q.empty() == (m.count == 0), "empty() is wrong"); }

enum { OpPush = 1, OpPop = 2, OpDec = 4, OpRange = 8, OpClear = 16, OpAll = 32, OpMove = 64, OpRange2 = 128 };

template<class Q> void doPop(Q& q, Model& m) {
  Ent t = q.top(); m.checkTop(t); Ent e = q.pop();
  vs_assert((e.id == t.id) & (e.key == t.key), "pop() returns something else than top()");
  m.remove(e); checkState(q, m); }
template<class Q> void doPush(Q& q, Model& m) { q.push(m.fresh()); checkState(q, m); }
template<class Q> void doDecrease(Q& q, Model& m) {
  Ent t = q.top(); m.checkTop(t); m.remove(t); Ent e = m.fresh(); vs_assume(e.key <= t.key); q.decreaseTop(e); checkState(q, m); }
// sorted range, in the order the queue documents (greatest first)
template<class Q> void doPushRange(Q& q, Model& m, unsigned len) {
  Ent r[16]; for (unsigned i = 0; i < len; ++i) { r[i] = m.fresh(); if (i) vs_assume(r[i].key <= r[i - 1].key); }
  const Ent* b = r; q.push(b, b + len); checkState(q, m); }
template<class Q> void drain(Q& q, Model& m) { while (m.count) doPop(q, m); vs_assert(q.empty(), "queue is not empty after removing everything"); }

// What a queue type supports beyond push and pop
template<class Q> struct Ops { static void dec(Q& q, Model& m) { doDecrease(q, m); } static void clear(Q& q) { q.clear(); } static void all(const Q& q, const Model& m) { checkForAll(q, m); } };

template<class Q> void oneOp(Q& q, Model& m, unsigned kinds, unsigned rangeMax) {
  unsigned list[8], n = 0; for (unsigned b = 0; b < 8; ++b) if (kinds & (1u << b)) list[n++] = 1u << b;
  unsigned op = list[vs_choice("op", n)];
  if ((op == OpPop || op == OpDec) && m.count == 0) op = OpPush;
  if (op == OpPush) doPush(q, m);
  else if (op == OpPop) doPop(q, m);
  else if (op == OpDec) Ops<Q>::dec(q, m);
  else if (op == OpRange) doPushRange(q, m, vs_choice("len", rangeMax + 1));
  else if (op == OpRange2) doPushRange(q, m, rangeMax + vs_choice("len", 2));
  else if (op == OpClear) { Ops<Q>::clear(q); for (unsigned j = 0; j < m.n; ++j) m.alive[j] = false; m.count = 0; checkState(q, m); }
  else if (op == OpAll) Ops<Q>::all(q, m);
}
// push K elements, then OPS arbitrary operations, then remove everything
template<class Q> void history(Q& q, Model& m, unsigned K, unsigned OPS, unsigned kinds, unsigned rangeMax) {
  for (unsigned i = 0; i < K; ++i) doPush(q, m);
  for (unsigned i = 0; i < OPS; ++i) oneOp(q, m, kinds, rangeMax);
}
template<class Q> void finish(Q& q, Model& m) { Ops<Q>::all(q, m); drain(q, m); vs_cover("end"); }
template<class Q> void fullHistory(Q& q) { Model m; history(q, m, vs_param("K", 3), vs_param("OPS", 2), vs_param("KINDS", 31), vs_param("RL", 3)); finish(q, m); }
