// Merging queues: every pushed element carries its own bit of weight, merging adds weights.
#pragma once
#include "pq.h"
struct WEnt { uint32_t key; uint32_t w; };
struct WConf {
  typedef WEnt Entry; typedef int CompareResult;
  CompareResult compare(const Entry& a, const Entry& b) const { return cmpKeys(a.key, b.key); }
  bool cmpLessThan(CompareResult r) const { return r < 0; }
  bool cmpEqual(CompareResult r) const { return r == 0; }
  Entry deduplicate(Entry a, Entry b) const { vs_assert(a.key == b.key, "two elements with different keys were merged"); vs_assert((a.w & b.w) == 0, "weight was merged twice"); Entry e; e.key = a.key; e.w = a.w + b.w; return e; }
};
struct WModel { uint32_t key[MaxIds]; unsigned n; uint32_t held; WModel() : n(0), held(0) {}
  WEnt put(uint32_t k) { WEnt e; e.key = k; e.w = 1u << n; key[n] = k; held |= e.w; ++n; return e; }
  WEnt fresh() { return put((uint32_t)vs_sym("key", KeyBits)); }
  bool isMax(uint32_t k) const { bool ok = true; for (unsigned i = 0; i < n; ++i) if (held >> i & 1) ok = ok & (key[i] <= k); return ok; }
  // an entry that surfaced: its weight is that of held elements with exactly its key
  uint32_t surfaced(const WEnt& e) const { uint32_t w = (uint32_t)vs_concretize(e.w);
    vs_assert(w != 0, "an entry without weight surfaced"); vs_assert((w & ~held) == 0, "weight surfaced that is not held");
    bool same = true; for (unsigned i = 0; i < n; ++i) if (w >> i & 1) same = same & (key[i] == e.key); vs_assert(same, "weight surfaced under another key");
    vs_assert(isMax(e.key), "the surfaced entry is less than a held entry"); vs_out(e.key); vs_out(w); return w; } };
struct WVisit { uint32_t seen; unsigned total; bool twice; const WModel& m; WVisit(const WModel& mm) : seen(0), total(0), twice(false), m(mm) {}
  bool proceed(const WEnt& e) { uint32_t w = (uint32_t)vs_concretize(e.w); if ((seen & w) | (w == 0)) twice = true; seen |= w; ++total;
    bool same = true; for (unsigned i = 0; i < m.n; ++i) if (w >> i & 1) same = same & (m.key[i] == e.key); vs_assert(same, "a held entry carries weight of another key"); return true; } };
template<class Q> struct HasForAll { static const bool value = true; };
template<class Q, bool> struct WState { static void go(const Q& q, const WModel& m) { WVisit v(m); q.forAll(v); vs_assert(!v.twice, "weight held twice"); vs_assert(v.seen == m.held, "held weight differs from what was pushed minus what was removed"); vs_assert(v.total == q.size(), "size() differs from the number of entries held"); } };
template<class Q> struct WState<Q, false> { static void go(const Q& q, const WModel& m) { unsigned bits = 0; for (unsigned i = 0; i < m.n; ++i) bits += m.held >> i & 1; size_t s = q.size(); vs_assert(s <= bits, "size() exceeds the number of elements pushed and not removed"); } };
template<class Q> void wstate(const Q& q, const WModel& m) { vs_assert(q.empty() == (m.held == 0), "empty() is wrong"); vs_assert((q.size() == 0) == (m.held == 0), "size() is zero on a queue that holds something, or the reverse"); WState<Q, HasForAll<Q>::value>::go(q, m); }
template<class Q> void wpop(Q& q, WModel& m) { size_t before = q.size(); WEnt e = q.pop(); uint32_t w = m.surfaced(e); m.held &= ~w; vs_assert(q.size() < before, "pop() did not shrink the queue"); wstate(q, m); }
template<class Q> void wtop(Q& q, WModel& m) { WEnt e = q.top(); m.surfaced(e); wstate(q, m); }
template<class Q> void wop(Q& q, WModel& m, unsigned kinds, unsigned rl) {
  unsigned list[8], n = 0; for (unsigned b = 0; b < 8; ++b) if (kinds & (1u << b)) list[n++] = 1u << b;
  unsigned op = list[vs_choice("op", n)];
  if ((op == OpPop || op == OpDec || op == OpAll) && !m.held) op = OpPush;
  if (op == OpPush) { q.push(m.fresh()); wstate(q, m); }
  else if (op == OpPop) wpop(q, m);
  else if (op == OpAll) wtop(q, m);
  // decreaseTop may first merge equal tops, so the weight that goes is taken from a top() that did the merging
  else if (op == OpDec) { WEnt t = q.top(); uint32_t w = m.surfaced(t); m.held &= ~w; WEnt e = m.fresh(); vs_assume(e.key <= t.key); q.decreaseTop(e); wstate(q, m); }
  else if (op == OpRange || op == OpRange2) { unsigned len = vs_choice("len", 2) + (op == OpRange2 ? rl : rl - 1); WEnt r[16]; for (unsigned i = 0; i < len; ++i) { r[i] = m.fresh(); if (i) vs_assume(r[i].key < r[i - 1].key); } const WEnt* b = r; q.push(b, b + len); wstate(q, m); }
  else if (op == OpClear) { q.clear(); m.held = 0; wstate(q, m); } }
template<class Q> void wrun(Q& q, WModel& m) {
  unsigned K = vs_param("K", 3), OPS = vs_param("OPS", 2), kinds = vs_param("KINDS", 31), rl = vs_param("RL", 2);
  for (unsigned i = 0; i < K; ++i) { q.push(m.fresh()); wstate(q, m); }
  for (unsigned i = 0; i < OPS; ++i) wop(q, m, kinds, rl);
  uint32_t last = 0xffffffffu; while (!q.empty()) { if (!m.held) { vs_assert(false, "the queue holds more than was pushed"); return; } WEnt t = q.top(); vs_assert(t.key <= last, "pops are not in non-increasing order"); last = t.key; wpop(q, m); }
  vs_assert(m.held == 0, "weight was lost"); vs_cover("end"); }
