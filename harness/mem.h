// Memory held, as far as operator new knows.
#pragma once
#include "vs.h"
// What the memory allocation library keeps to itself for a block (nothing under the engine, whose version of it has no such overhead).
static inline size_t bookkeeping(unsigned blocks) { return vs_in_engine() ? 0 : 32 * blocks; }
struct Held { size_t base; Held(): base(vs_live_bytes()) {} size_t now() const { return (size_t)vs_live_bytes() - base; }
  void exact(size_t said) const { vs_assert(said >= now(), "less memory is reported than is held"); vs_assert(said <= now(), "more memory is reported than is held"); }
  void nearly(size_t said, unsigned blocks) const { vs_assert(said + bookkeeping(blocks) >= now(), "less memory is reported than is held"); vs_assert(said <= now(), "more memory is reported than is held"); }
  void none() const { vs_assert(now() == 0, "memory is still held after the end"); vs_cover("end"); } };
