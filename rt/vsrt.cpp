// Runtime linked with every harness under the engine: the out-of-line parts of libstdc++, libc and libmemtailor
// that the code under test calls. These are models (part of the trusted base); native replay uses the real ones.
#include "vs.h"
#include "../engine/shim/vs_streams"
#include <stdexcept>
#include <new>
#include <list>
#include <unordered_map>
#include <set>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <cctype>
#include <ctime>
#include <memtailor.h>

template class std::basic_string<char>; // libstdc++ keeps these out of line
extern "C" uint64_t vs_aux(const char*, unsigned bits, uint64_t def); // solver-chosen auxiliary value (not an input), constrained to be def by what follows
extern "C" int vs_is_symbolic(uint64_t);

extern "C" int vs_same(uint64_t, uint64_t); // the same expression (concrete: equal)

// ---- decimal formatting: digits of a symbolic value are auxiliary variables tied to it by a linear equation;
// a value that was itself printed or parsed before has the digits it had then
static struct { uint64_t v; char d[24]; unsigned n; } g_num[64]; static unsigned g_nums;
extern "C" void vsrt_num_is(uint64_t v, const char* d, unsigned n) { if (!vs_is_symbolic(v) || g_nums >= 64 || n > 24) return; g_num[g_nums].v = v; g_num[g_nums].n = n; for (unsigned i = 0; i < n; ++i) g_num[g_nums].d[i] = d[i]; ++g_nums; }
extern "C" unsigned vsrt_dec(uint64_t v, char* buf) {
  if (!vs_is_symbolic(v)) { char t[24]; unsigned n = 0; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); for (unsigned i = 0; i < n; ++i) buf[i] = t[n - 1 - i]; return n; }
  for (unsigned k = 0; k < g_nums; ++k) if (vs_same(g_num[k].v, v)) { for (unsigned i = 0; i < g_num[k].n; ++i) buf[i] = g_num[k].d[i]; return g_num[k].n; }
  unsigned n = 1; uint64_t p = 10; while (n < 20 && v >= p) { ++n; if (n < 20) p *= 10; }
  uint64_t sum = 0, q = 1; for (unsigned i = 1; i < n; ++i) q *= 10;
  for (unsigned i = 0; i < n; ++i) { uint64_t d = vs_aux("digit", 4, v / q % 10); q /= 10; vs_assume(d <= 9); if (i == 0 && n == 20) vs_assume(d <= 1); buf[i] = (char)('0' + d); sum = sum * 10 + d; }
  vs_assume(sum == v); vsrt_num_is(v, buf, n); return n; }
// the value of n digits without superfluous leading zeros
extern "C" uint64_t vsrt_num(const char* d, unsigned n, uint64_t mx, bool* over) {
  for (unsigned k = 0; k < g_nums; ++k) if (g_num[k].n == n) { bool same = true; for (unsigned i = 0; same && i < n; ++i) same = vs_same((unsigned char)g_num[k].d[i], (unsigned char)d[i]); if (same) { *over = g_num[k].v > mx; return g_num[k].v; } }
  if (n > 20) { *over = true; return 0; }
  uint64_t r = 0; for (unsigned i = 0; i < n && i < 19; ++i) r = r * 10 + (uint64_t)(unsigned char)(d[i] - '0');
  if (n == 20) { uint64_t k = (uint64_t)(unsigned char)(d[19] - '0'); if ((r > mx / 10) | ((r == mx / 10) & (k > mx % 10))) { *over = true; return 0; } return r * 10 + k; }
  *over = r > mx; return r; }

namespace std {
  ostream cout, cerr, clog; istream cin;
  // exceptions
  exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  static const char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
  __cow_string::__cow_string() : _M_p(dupn("", 0)) {}
  __cow_string::__cow_string(const string& s) : _M_p(dupn(s.data(), s.size())) {}
  __cow_string::__cow_string(const char* s, size_t n) : _M_p(dupn(s, n)) {}
  __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupn(o._M_p, strlen(o._M_p))) {}
  __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* p = dupn(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = p; return *this; }
  __cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupn(o._M_p, strlen(o._M_p))) {}
  __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* p = dupn(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = p; return *this; }
  __cow_string::~__cow_string() { free((void*)_M_p); }
#define EXC(N) N::N(const string& s) : exception(), _M_msg(s) {} N::N(const char* s) : exception(), _M_msg(s, strlen(s)) {} \
  N::N(N&& o) noexcept : exception(), _M_msg(o._M_msg) {} N& N::operator=(N&& o) noexcept { _M_msg = o._M_msg; return *this; } \
  N::N(const N& o) noexcept : exception(), _M_msg(o._M_msg) {} N& N::operator=(const N& o) noexcept { _M_msg = o._M_msg; return *this; } \
  N::~N() noexcept {} const char* N::what() const noexcept { return _M_msg._M_p; }
  EXC(logic_error) EXC(runtime_error)
#define SUB(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
  SUB(length_error, logic_error) SUB(out_of_range, logic_error) SUB(invalid_argument, logic_error) SUB(domain_error, logic_error) SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)
  void __throw_bad_alloc() { throw bad_alloc(); }
  void __throw_bad_array_new_length() { throw bad_array_new_length(); }
  void __throw_length_error(const char* s) { throw length_error(s); }
  void __throw_logic_error(const char* s) { throw logic_error(s); }
  void __throw_out_of_range(const char* s) { throw out_of_range(s); }
  void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
  void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
  void __throw_runtime_error(const char* s) { throw runtime_error(s); }
  void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
  void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { abort(); }
  // unordered containers: the contract of the rehash policy, not its particular primes
  namespace __detail {
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 2; while (b < n) b = 2 * b + 1; _M_next_resize = (size_t)(b * (double)_M_max_load_factor); return b; }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni <= _M_next_resize) return {false, 0}; size_t want = ne + ni + 1; if (want > nb) { size_t b = _M_next_bkt(want > 2 * nb ? want : 2 * nb); return {true, b}; } _M_next_resize = nb; return {false, 0}; }
  }
  // std::list nodes
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
      if (this == last) return; last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
      _List_node_base* const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
    void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
      if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
      else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
  }
  // std::set trees: an unbalanced binary search tree meets the same contract (colour fields are unused, except
  // that the header stays red, which decrement relies on to recognise it)
  typedef _Rb_tree_node_base RB;
  static RB* inc(RB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { RB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
  static RB* dec(RB* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { RB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { RB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
  RB* _Rb_tree_increment(RB* x) noexcept { return inc(x); } const RB* _Rb_tree_increment(const RB* x) noexcept { return inc(const_cast<RB*>(x)); }
  RB* _Rb_tree_decrement(RB* x) noexcept { return dec(x); } const RB* _Rb_tree_decrement(const RB* x) noexcept { return dec(const_cast<RB*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
  RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) noexcept {
    RB* repl; 
    auto setChild = [&](RB* old, RB* nw) { RB* p = old->_M_parent; if (h._M_parent == old) h._M_parent = nw; else if (p->_M_left == old) p->_M_left = nw; else p->_M_right = nw; if (nw) nw->_M_parent = p; };
    if (h._M_left == z || h._M_right == z) { RB* nx = inc(z); RB* pv = h._M_left == z ? &h : dec(z); RB* l = h._M_left, * r = h._M_right; if (l == z) l = nx; if (r == z) r = pv; h._M_left = l; h._M_right = r; }
    if (!z->_M_left) { repl = z->_M_right; setChild(z, repl); } else if (!z->_M_right) { repl = z->_M_left; setChild(z, repl); }
    else { RB* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y != z->_M_right) { setChild(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } setChild(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = _S_black; }
    if (!h._M_parent) { h._M_left = h._M_right = &h; }
    return z; }
}
// std::to_string and std::to_chars, base 10 (called by the engine in place of the inline templates)
#define TOCHARS(T, M) extern "C" unsigned vsrt_len_##M(T v, int base) { if (base != 10) abort(); char b[24]; return vsrt_dec(v, b); } \
  extern "C" void vsrt_put_##M(char* p, unsigned n, T v) { char b[24]; unsigned k = vsrt_dec(v, b); if (k != n) abort(); memcpy(p, b, n); }
TOCHARS(unsigned, j) TOCHARS(unsigned long, m) TOCHARS(unsigned long long, y)
// rounding of symbolic values
static bool whole(double x) { return !(x < 4503599627370496.0 && x > -4503599627370496.0); } // already integral (or not a number)
extern "C" double vsrt_trunc(double x) { return whole(x) ? x : (double)(int64_t)x; }
extern "C" double vsrt_floor(double x) { if (whole(x)) return x; double t = (double)(int64_t)x; return t > x ? t - 1 : t; }
extern "C" double vsrt_ceil(double x) { if (whole(x)) return x; double t = (double)(int64_t)x; return t < x ? t + 1 : t; }
extern "C" double vsrt_round(double x) { if (whole(x)) return x; double t = (double)(int64_t)x, d = x - t; return d >= 0.5 ? t + 1 : d <= -0.5 ? t - 1 : t; }
extern "C" { long long llround(double x) __THROW { return (long long)vsrt_round(x); } long lround(double x) __THROW { return (long)vsrt_round(x); } }
extern "C" void vsrt_throw_bad_alloc() { throw std::bad_alloc(); }

// ---- libc
extern "C" {
void* vsl_memchr(const void*, int, size_t) asm("memchr"); void* vsl_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
int strcmp(const char* a, const char* b) __THROW { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) __THROW { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char* vsl_strchr(const char*, int) asm("strchr"); char* vsl_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
int isspace(int c) __THROW { return (int)((c == ' ') | ((unsigned)(c - 9) < 5)); }
int isdigit(int c) __THROW { return (int)((unsigned)(c - '0') < 10); }
int isalpha(int c) __THROW { return (int)(((unsigned)(c | 32) - 'a') < 26); }
int isalnum(int c) __THROW { return isalpha(c) | isdigit(c); }
int isupper(int c) __THROW { return (int)((unsigned)(c - 'A') < 26); }
int islower(int c) __THROW { return (int)((unsigned)(c - 'a') < 26); }
int ispunct(int c) __THROW { return (int)(((unsigned)(c - 33) < 94) & !isalnum(c)); }
int isprint(int c) __THROW { return (int)((unsigned)(c - 32) < 95); }
int tolower(int c) __THROW { return isupper(c) ? c + 32 : c; }
int toupper(int c) __THROW { return islower(c) ? c - 32 : c; }
static char capBuf[4096]; static size_t capLen; static bool capOn;
static char* sink; static size_t sinkCap, sinkLen; static bool sinkOn; // snprintf and the like
static void capPut(char c) { if (sinkOn) { if (sinkLen + 1 < sinkCap) sink[sinkLen] = c; ++sinkLen; } else if (capOn && capLen < sizeof capBuf) capBuf[capLen++] = c; }
int fputs(const char* s, FILE*) { for (; *s; ++s) capPut(*s); return 1; }
int fputc(int c, FILE*) { capPut((char)c); return c; }
int putc(int c, FILE*) { capPut((char)c); return c; }
size_t fwrite(const void* p, size_t sz, size_t n, FILE*) { for (size_t i = 0; i < sz * n; ++i) capPut(((const char*)p)[i]); return n; }
int fflush(FILE*) { return 0; }
static int vform(const char* f, va_list ap) {
  for (; *f; ++f) { if (*f != '%') { capPut(*f); continue; } ++f; bool zero = false; int width = 0; int lng = 0; if (*f == '0') { zero = true; ++f; } while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0'); while (*f == 'l' || *f == 'z') { ++lng; ++f; }
    char b[24]; int n;
    switch (*f) { case 'u': { uint64_t v = lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); n = vsrt_dec(v, b); for (int i = n; i < width; ++i) capPut(zero ? '0' : ' '); for (int i = 0; i < n; ++i) capPut(b[i]); break; }
      case 'd': { int64_t v = lng ? va_arg(ap, int64_t) : va_arg(ap, int); bool ng = v < 0; n = vsrt_dec(ng ? 0 - (uint64_t)v : (uint64_t)v, b); if (ng) capPut('-'); for (int i = n + ng; i < width; ++i) capPut(zero ? '0' : ' '); for (int i = 0; i < n; ++i) capPut(b[i]); break; }
      case 's': { const char* s = va_arg(ap, const char*); for (; *s; ++s) capPut(*s); break; }
      case 'c': capPut((char)va_arg(ap, int)); break; case '%': capPut('%'); break; default: abort(); } }
  return 0; }
int fprintf(FILE*, const char* f, ...) { va_list ap; va_start(ap, f); vform(f, ap); va_end(ap); return 0; }
int vfprintf(FILE*, const char* f, va_list ap) { return vform(f, ap); }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) __THROW { sink = b; sinkCap = n; sinkLen = 0; sinkOn = true; vform(f, ap); sinkOn = false; if (n) b[sinkLen < n ? sinkLen : n - 1] = 0; return (int)sinkLen; }
int snprintf(char* b, size_t n, const char* f, ...) __THROW { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) __THROW { va_list ap; va_start(ap, f); int r = vsnprintf(b, ~(size_t)0 >> 1, f, ap); va_end(ap); return r; }
static int vsErrno; int* __errno_location() __THROW { return &vsErrno; }
// strtoul and its family, base 10
static uint64_t toNum(const char* s, char** end, uint64_t mxPos, uint64_t mxNeg, bool sgn) {
  const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  const char* q = p; while (isdigit((unsigned char)*q)) ++q;
  if (end) *end = (char*)(p == q ? s : q); if (p == q) return 0;
  while (p + 1 < q && *p == '0') ++p; bool over = false; uint64_t v = vsrt_num(p, (unsigned)(q - p), sgn && neg ? mxNeg : mxPos, &over);
  if (over) { vsErrno = 34; return sgn && neg ? 0 - mxNeg : mxPos; } return neg ? 0 - v : v; }
#define STRTO(N, A, T, P, M, S) T N(const char*, char**, int) asm(A); T N(const char* s, char** e, int base) { if (base != 10) abort(); return (T)toNum(s, e, P, M, S); }
#define I64 0x7fffffffffffffffULL
STRTO(vsl_strtoul, "strtoul", unsigned long, ~0ULL, 0, false) STRTO(vsl_strtoul2, "__isoc23_strtoul", unsigned long, ~0ULL, 0, false) STRTO(vsl_strtoull, "strtoull", unsigned long long, ~0ULL, 0, false) STRTO(vsl_strtoull2, "__isoc23_strtoull", unsigned long long, ~0ULL, 0, false)
STRTO(vsl_strtol, "strtol", long, I64, I64 + 1, true) STRTO(vsl_strtol2, "__isoc23_strtol", long, I64, I64 + 1, true) STRTO(vsl_strtoll, "strtoll", long long, I64, I64 + 1, true) STRTO(vsl_strtoll2, "__isoc23_strtoll", long long, I64, I64 + 1, true)
void vs_capture_begin() { capOn = true; capLen = 0; }
size_t vs_capture_end(char* b, size_t c) { capOn = false; size_t n = capLen < c ? capLen : c; memcpy(b, capBuf, n); return n; }
static long clk; void vs_set_clock(long v) { clk = v; }
clock_t clock() __THROW { return clk; }
FILE* stderr; FILE* stdout;
}

// ---- libmemtailor (the installed headers hold the inline parts)
namespace memt {
  MemoryBlocks::Block::Block(size_t capacity, Block* previous) { capacity = alignNoOverflow(capacity); _begin = new char[capacity]; _position = _begin; _end = _begin + capacity; _previous = previous; }
  void MemoryBlocks::Block::freePrevious() { if (!_previous) return; Block* p = _previous; _previous = p->_previous; p->free(); delete p; }
  void MemoryBlocks::Block::newBlock(size_t capacity) { capacity = alignThrowOnOverflow(capacity); char* b = new char[capacity]; if (!isNull()) { Block* old; try { old = new Block(); } catch (...) { delete[] b; throw; } old->_begin = _begin; old->_position = _position; old->_end = _end; old->_previous = _previous; _previous = old; } _begin = b; _position = b; _end = b + capacity; }
  void MemoryBlocks::freeAllPreviousBlocks() { while (_block.hasPreviousBlock()) _block.freePrevious(); }
  void MemoryBlocks::freeAllBlocks() { freeAllPreviousBlocks(); _block.free(); _block.makeNull(); }
  MemoryBlocks::Block* MemoryBlocks::blockOf(const void* ptr) { if (!ptr) return 0; for (Block* b = &_block; b; b = b->previousBlock()) if (b->isInBlock(ptr)) return b; return 0; }
  size_t MemoryBlocks::getMemoryUse() const { size_t s = 0; for (const Block* b = &_block; b; b = b->previousBlock()) { s += b->getBytesInBlock(); if (b->hasPreviousBlock()) s += sizeof(Block); } return s; }
  size_t MemoryBlocks::getMemoryUseToLeft() const { size_t s = 0; for (const Block* b = &_block; b; b = b->previousBlock()) s += b->getBytesToLeft(); return s; }
  // small, so that growth is exercised; the parameter ARENA=1 chooses the size the library really uses
  #define InitialCapacity ((size_t)(vs_param("ARENA", 0) ? 16368 : 64))
  BufferPool::BufferPool(size_t n) : _bufferSize(MemoryBlocks::alignThrowOnOverflow(n < sizeof(FreeNode) ? sizeof(FreeNode) : n)), _free(0) {}
  void BufferPool::growCapacity() { const size_t cur = block().getBytesInBlock(); size_t cap = cur == 0 ? _bufferSize * 2 : cur * 2; _blocks.allocBlock(cap); }
  void BufferPool::freeAllBuffers() { _free = 0; _blocks.freeAllPreviousBlocks(); block().clear(); }
  void BufferPool::freeAllBuffersAndBackingMemory() { _free = 0; _blocks.freeAllBlocks(); }
  bool BufferPool::fromPool(const void* p) const { return const_cast<MemoryBlocks&>(_blocks).inSomeBlock(const_cast<void*>(p)); }
  Arena::Arena() {} Arena::~Arena() {}
  void Arena::growCapacity(const size_t needed) { size_t size = MemoryBlocks::alignThrowOnOverflow(needed); const size_t cur = block().getBytesInBlock(); if (size < InitialCapacity) size = InitialCapacity; if (size < cur * 2) size = cur * 2; const bool rm = !block().isNull() && block().empty(); _blocks.allocBlock(size); if (rm) _blocks.freePreviousBlock(); }
  void Arena::freeTopFromOldBlock(void* p) { freeAndAllAfterFromOldBlock(p); }
  void Arena::freeAndAllAfterFromOldBlock(void* p) { block().clear(); while (!(block().hasPreviousBlock() && block().previousBlock()->isInBlock(p))) { if (!block().hasPreviousBlock()) abort(); _blocks.freePreviousBlock(); } block().previousBlock()->setPosition(p); if (block().previousBlock()->empty()) _blocks.freePreviousBlock(); }
  void Arena::freeAllAllocs() { _blocks.freeAllPreviousBlocks(); block().clear(); }
  void Arena::freeAllAllocsAndBackingMemory() { _blocks.freeAllBlocks(); }
  bool Arena::fromArena(void const* p) { return _blocks.inSomeBlock(const_cast<void*>(p)); }
  Arena Arena::_scratchArena;
}
