// Interface between a harness and its two back ends: the symbolic engine (msym) and the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vs_sym(const char* name, unsigned bits); // an arbitrary value of that many bits
void vs_assume(bool);                             // restrict attention to executions where it holds
void vs_assert(bool, const char* msg);            // the property
void vs_out(uint64_t);                            // observable trace, compared between engine and native run
void vs_cover(const char* name);                  // reachability witness
long vs_param(const char* name, long def);        // bound chosen by the check (concrete)
uint64_t vs_concretize(uint64_t);                 // branch over all feasible values
int vs_in_engine();
uint64_t vs_live_bytes();                         // sizes of what operator new handed out and has not got back
void vs_fail_alloc(long n);                       // let the n-th following operator new fail (-1: never)
void vs_capture_begin();                          // start collecting stderr
size_t vs_capture_end(char* buf, size_t cap);     // stop, copy
void vs_set_clock(long v);                        // value returned by clock()
}
static inline uint64_t vs_range(const char* n, uint64_t lo, uint64_t hi) {
  unsigned b = 1; while (b < 64 && (hi >> b)) ++b;
  uint64_t v = vs_sym(n, b); vs_assume((v >= lo) & (v <= hi)); return v; }
// a choice among n alternatives, made concrete at once (the engine explores all of them)
static inline unsigned vs_choice(const char* n, unsigned k) { return k <= 1 ? 0u : (unsigned)vs_concretize(vs_range(n, 0, k - 1)); }
#define VS_ENTRY(name) extern "C" void name()
#ifdef VS_NATIVE
struct VsReg { VsReg(const char* n, void (*f)()); };
#define VS_REGISTER(name) static VsReg vsreg_##name(#name, name);
#else
#define VS_REGISTER(name)
#endif
#define VS_HARNESS(name) extern "C" void name(); VS_REGISTER(name) extern "C" void name()
