// Expression layer of msym: hash-consed bit-vector terms with local simplification,
// evaluation under a model, and lowering to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 { O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_NOT,
  // floating point over bit patterns; aux = source width where needed
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC,
  O_AGG };

struct Expr {
  Op op; u8 flags; uint16_t w; u32 id; u32 aux;
  Expr *a, *b, *c;
  u128 val;
  Z3_ast z; 
  u64 stamp; u128 mv; // cached value under the model with this stamp
};
enum { EF_UNDEF = 1, EF_FP = 2 };

struct Agg; // aggregates are handled in msym.cpp

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

struct SymInfo { std::string name; unsigned w; bool undef; u32 idx; Expr* e; Expr* def = nullptr; /* what an auxiliary symbol stands for */ };

class ExprPool {
public:
  std::vector<Expr*> table; size_t count = 0; u32 nextId = 1;
  std::vector<u32> defined; // auxiliary symbols, earliest first
  std::vector<SymInfo> syms; // global symbol table, by expression aux
  ExprPool() { table.assign(1 << 16, nullptr); }
  static u64 h(Op op, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 v) {
    u64 x = op * 0x9E3779B97F4A7C15ull + w; auto mix = [&](u64 y) { x ^= y; x *= 0xff51afd7ed558ccdull; x ^= x >> 32; };
    mix(aux); mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0); mix((u64)v); mix((u64)(v >> 64)); return x; }
  char* blk = nullptr; size_t blkLeft = 0;
  Expr* alloc() { if (blkLeft < sizeof(Expr)) { size_t n = 4096 * sizeof(Expr); blk = (char*)aligned_alloc(16, n); blkLeft = n; } Expr* e = (Expr*)blk; blk += sizeof(Expr); blkLeft -= sizeof(Expr); return e; }
  Expr* raw(Op op, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0, u128 v = 0) {
    u64 hh = h(op, w, aux, a, b, c, v); size_t m = table.size() - 1; size_t i = hh & m;
    while (Expr* e = table[i]) { if (e->op == op && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->val == v) return e; i = (i + 1) & m; }
    Expr* e = alloc(); memset((void*)e, 0, sizeof(Expr)); e->op = op; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = v; e->id = nextId++;
    e->flags = (a ? a->flags : 0) | (b ? b->flags : 0) | (c ? c->flags : 0) | (op >= O_FADD && op < O_AGG ? EF_FP : 0);
    table[i] = e; if (++count * 2 > table.size()) grow();
    return e;
  }
  void grow() { std::vector<Expr*> o; o.swap(table); table.assign(o.size() * 2, nullptr); size_t m = table.size() - 1;
    for (Expr* e : o) if (e) { size_t i = h(e->op, e->w, e->aux, e->a, e->b, e->c, e->val) & m; while (table[i]) i = (i + 1) & m; table[i] = e; } }

  Expr* con(u128 v, unsigned w) { return raw(O_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  std::unordered_map<std::string, u32> symByKey;
  // a symbol is identified by its creation index on the path, name and width
  Expr* sym(u32 idx, const std::string& name, unsigned w, bool undef, Expr* def = nullptr) {
    std::string key = std::to_string(idx) + "/" + name + "/" + std::to_string(w) + (undef ? "u" : "") + (def ? "/" + std::to_string(def->id) : "");
    auto it = symByKey.find(key); u32 s;
    if (it == symByKey.end()) { s = syms.size(); symByKey[key] = s; syms.push_back({name, w, undef, idx, nullptr, def}); if (def) defined.push_back(s); } else s = it->second;
    Expr* e = raw(O_SYM, w, 0, 0, 0, s); if (undef) e->flags |= EF_UNDEF; syms[s].e = e; return e; }

  static bool isC(Expr* e) { return e->op == O_CONST; }
  static bool isC(Expr* e, u128 v) { return e->op == O_CONST && e->val == v; }

  static double asD(u128 v, unsigned w) { if (w == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; } double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d; }
  static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }

  // value of an operation on concrete operands; division by zero yields all ones / the dividend (SMT-LIB)
  static u128 fold(Op op, unsigned w, u32 aux, unsigned wa, u128 a, u128 b, u128 c) {
    u128 m = maskw(w);
    switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b == 0 ? m : a / b; case O_UREM: return b == 0 ? a : a % b;
    case O_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case O_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b; case O_NOT: return ~a & m;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sextw(a, wa) < sextw(b, wa); case O_SLE: return sextw(a, wa) <= sextw(b, wa);
    case O_ITE: return a ? b : c; case O_ZEXT: return a; case O_SEXT: return (u128)sextw(a, wa) & m;
    case O_EXTRACT: return (a >> aux) & m; case O_CONCAT: return 0; // handled by caller
    case O_FADD: return w == 32 ? fromD((float)((float)asD(a, 32) + (float)asD(b, 32)), 32) : fromD(asD(a, w) + asD(b, w), w);
    case O_FSUB: return w == 32 ? fromD((float)((float)asD(a, 32) - (float)asD(b, 32)), 32) : fromD(asD(a, w) - asD(b, w), w);
    case O_FMUL: return w == 32 ? fromD((float)((float)asD(a, 32) * (float)asD(b, 32)), 32) : fromD(asD(a, w) * asD(b, w), w);
    case O_FDIV: return w == 32 ? fromD((float)((float)asD(a, 32) / (float)asD(b, 32)), 32) : fromD(asD(a, w) / asD(b, w), w);
    case O_FOEQ: return asD(a, wa) == asD(b, wa); case O_FOLT: return asD(a, wa) < asD(b, wa); case O_FOLE: return asD(a, wa) <= asD(b, wa);
    case O_FUNO: return std::isnan(asD(a, wa)) || std::isnan(asD(b, wa));
    case O_FPTOSI: { double d = asD(a, wa); if (!(d > -9.3e18 && d < 9.3e18)) return (u128)1 << (w - 1); return (u128)(i128)d & m; }
    case O_FPTOUI: { double d = asD(a, wa); if (!(d > -1 && d < 1.85e19)) return (u128)1 << (w - 1); return (u128)d & m; }
    case O_SITOFP: { i128 x = sextw(a, wa); return w == 32 ? fromD((float)x, 32) : fromD((double)x, 64); }
    case O_UITOFP: return w == 32 ? fromD((float)a, 32) : fromD((double)a, 64);
    case O_FPEXT: case O_FPTRUNC: return fromD(asD(a, wa), w);
    default: return 0;
    }
  }

  Expr* mkNot(Expr* a) {
    if (isC(a)) return con(~a->val, a->w);
    if (a->op == O_NOT) return a->a;
    if (a->w == 1) {
      if (a->op == O_ULT) return bin(O_ULE, a->b, a->a); if (a->op == O_ULE) return bin(O_ULT, a->b, a->a);
      if (a->op == O_SLT) return bin(O_SLE, a->b, a->a); if (a->op == O_SLE) return bin(O_SLT, a->b, a->a);
      if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, mkNot(a->b), mkNot(a->c));
    }
    return raw(O_NOT, a->w, a);
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == O_NOT) return ite(c->a, b, a);
    if (a->w == 1) {
      if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
      if (a == c) a = con(1, 1); if (b == c) b = con(0, 1);
      if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
      if (isC(a)) return a->val ? bin(O_OR, c, b) : bin(O_AND, mkNot(c), b);
      if (isC(b)) return b->val ? bin(O_OR, mkNot(c), a) : bin(O_AND, c, a);
    }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w && a->a->w > 1) return zext(ite(c, a->a, b->a), a->w);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w && a->a->w > 1) return sext(ite(c, a->a, b->a), a->w);
    if (a->w > 1 && (isC(a) != isC(b))) { Expr *k = isC(a) ? a : b, *e = isC(a) ? b : a; // a small constant against an extended value
      if (e->op == O_ZEXT && e->a->w > 1 && sig(k) <= e->a->w) { Expr* kk = con(k->val, e->a->w); return zext(ite(c, isC(a) ? kk : e->a, isC(a) ? e->a : kk), a->w); }
      if (e->op == O_SEXT && e->a->w > 1 && ssig(k) <= e->a->w) { Expr* kk = con(k->val, e->a->w); return sext(ite(c, isC(a) ? kk : e->a, isC(a) ? e->a : kk), a->w); } }
    if (a->op == O_ITE && a->a == c) a = a->b;
    if (b->op == O_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->w == 1 && isAtom(c) && isAtom(a) && isAtom(b) && isNegOf(a, b)) { Expr* p = andCmp(c, a); Expr* q = andCmp(mkNot(c), b); if (p && q) { if (isC(p, 0)) return q; if (isC(q, 0)) return p; } }
    return raw(O_ITE, a->w, c, a, b);
  }
  Expr* zext(Expr* a, unsigned w) { if (w == a->w) return a; if (isC(a)) return con(a->val, w); if (a->op == O_ZEXT) a = a->a;
    if (a->op == O_ITE && (isC(a->b) && isC(a->c))) return ite(a->a, zext(a->b, w), zext(a->c, w));
    return raw(O_ZEXT, w, a); }
  Expr* sext(Expr* a, unsigned w) { if (w == a->w) return a; if (isC(a)) return con((u128)sextw(a->val, a->w), w); if (a->op == O_SEXT) a = a->a; if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_ITE && (isC(a->b) && isC(a->c))) return ite(a->a, sext(a->b, w), sext(a->c, w));
    return raw(O_SEXT, w, a); }
  Expr* extract(Expr* a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return con(a->val >> off, w);
    switch (a->op) {
    case O_EXTRACT: return extract(a->a, a->aux + off, w);
    case O_ZEXT: if (off >= a->a->w) return con(0, w); if (off + w <= a->a->w) return extract(a->a, off, w); if (off == 0) return zext(a->a, w); return zext(extract(a->a, off, a->a->w - off), w);
    case O_SEXT: if (off + w <= a->a->w) return extract(a->a, off, w); if (off == 0) return sext(a->a, w); break;
    case O_CONCAT: if (off >= a->b->w) return extract(a->a, off - a->b->w, w); if (off + w <= a->b->w) return extract(a->b, off, w); break;
    case O_ITE: if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w)); break;
    case O_AND: case O_OR: case O_XOR: if (isC(a->b)) return bin(a->op, extract(a->a, off, w), extract(a->b, off, w)); break;
    case O_ADD: case O_SUB: case O_MUL: if (off == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w)); break;
    default: break;
    }
    return raw(O_EXTRACT, w, a, 0, 0, off);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return con((hi->val << lo->w) | lo->val, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return extract(hi->a, lo->aux, w);
    if (hi->op == O_EXTRACT && hi->a == lo && hi->aux == lo->w) return extract(lo, 0, w);
    if (hi->op == O_CONCAT && hi->b->op == O_EXTRACT && lo->op == O_EXTRACT && hi->b->a == lo->a && hi->b->aux == lo->aux + lo->w) return concat(hi->a, concat(hi->b, lo));
    return raw(O_CONCAT, w, hi, lo);
  }
  // highest value bound: number of significant low bits (upper bits known zero)
  unsigned sig(Expr* e, int d = 0) {
    switch (e->op) { case O_CONST: { unsigned n = 0; u128 v = e->val; while (v) { n++; v >>= 1; } return n; }
    case O_ZEXT: return sig(e->a, d + 1); case O_AND: if (d < 4) { unsigned x = sig(e->a, d + 1), y = sig(e->b, d + 1); return x < y ? x : y; } return e->w;
    case O_ITE: case O_OR: case O_XOR: if (d < 4) { Expr* p = e->op == O_ITE ? e->b : e->a; Expr* q = e->op == O_ITE ? e->c : e->b; unsigned x = sig(p, d + 1), y = sig(q, d + 1); return x > y ? x : y; } return e->w;
    case O_LSHR: if (isC(e->b) && d < 4) { unsigned x = sig(e->a, d + 1); return e->b->val >= x ? 0 : x - (unsigned)e->b->val; } return e->w;
    case O_UDIV: case O_UREM: if (d < 4) { unsigned x = sig(e->a, d + 1); if (isC(e->b) && e->b->val && e->op == O_UREM) { unsigned y = sig(e->b); return x < y ? x : y; } if (isC(e->b) && e->b->val) return x; } return e->w;
    case O_ADD: if (d < 4) { unsigned x = sig(e->a, d + 1), y = sig(e->b, d + 1); unsigned m = (x > y ? x : y) + 1; return m < e->w ? m : e->w; } return e->w;
    case O_MUL: if (d < 4) { unsigned x = sig(e->a, d + 1) + sig(e->b, d + 1); return x < e->w ? x : e->w; } return e->w;
    default: return e->w; }
  }
  // bits needed to hold the value in two's complement
  unsigned ssig(Expr* e, int d = 0) {
    switch (e->op) { case O_CONST: { i128 v = sextw(e->val, e->w); unsigned n = 1; while (n < e->w && sextw((u128)v & maskw(n), n) != v) n++; return n; }
    case O_ZEXT: return sig(e->a) + 1 < e->w ? sig(e->a) + 1 : e->w; case O_SEXT: return d < 4 ? ssig(e->a, d + 1) : e->a->w;
    case O_ITE: if (d < 4) { unsigned x = ssig(e->b, d + 1), y = ssig(e->c, d + 1); return x > y ? x : y; } return e->w;
    default: return e->w; } }
  static const unsigned NarrowMax = 14;
  // sign-faithful narrowing of arithmetic on small values
  Expr* narrowS(Op op, Expr* a, Expr* b) {
    unsigned w = a->w; if (w < 16 || (isC(a) && isC(b))) return nullptr; if (!(a->op == O_ZEXT || a->op == O_SEXT || a->op == O_ITE || isC(a)) || !(b->op == O_ZEXT || b->op == O_SEXT || b->op == O_ITE || isC(b))) return nullptr;
    unsigned x = ssig(a), y = ssig(b), m = (op == O_MUL ? x + y : (x > y ? x : y) + 1); if (m > NarrowMax) return nullptr;
    return sext(bin(op, extract(a, 0, m), extract(b, 0, m)), w); }
  static bool comm(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ; }
  static bool isCmp(Op o) { return o >= O_EQ && o <= O_SLE; }
  bool isNegOf(Expr* a, Expr* b) { // boolean complement
    if (a->op == O_NOT && a->a == b) return true; if (b->op == O_NOT && b->a == a) return true;
    if (a->op == O_ULT && b->op == O_ULE && a->a == b->b && a->b == b->a) return true; if (a->op == O_ULE && b->op == O_ULT && a->a == b->b && a->b == b->a) return true;
    if (a->op == O_SLT && b->op == O_SLE && a->a == b->b && a->b == b->a) return true; if (a->op == O_SLE && b->op == O_SLT && a->a == b->b && a->b == b->a) return true;
    return false; }
  static bool cTree(Expr* e, int d) { return isC(e) || (d && e->op == O_ITE && cTree(e->b, d - 1) && cTree(e->c, d - 1)); }
  static bool isAtom(Expr* e) { return e->op == O_EQ || e->op == O_ULT || e->op == O_ULE || (e->op == O_NOT && e->a->op == O_EQ); }
  // conjunction of two comparisons over the same operands, or null
  Expr* andCmp(Expr* p, Expr* q) {
    if (p->op == O_NOT && p->a->op == O_EQ && q->op != O_NOT) { Expr* t = p; p = q; q = t; }
    bool qn = q->op == O_NOT && q->a->op == O_EQ; Expr* r = qn ? q->a : q;
    if (!(p->op == O_EQ || p->op == O_ULT || p->op == O_ULE) || !(r->op == O_EQ || r->op == O_ULT || r->op == O_ULE)) return nullptr;
    bool same = p->a == r->a && p->b == r->b, flip = p->a == r->b && p->b == r->a; if (!same && !flip) return nullptr;
    if (p->a->w == 1) return nullptr;
    if (qn) { if (p->op == O_ULT) return p; if (p->op == O_ULE) return bin(O_ULT, p->a, p->b); return con(0, 1); }
    if (p->op == O_EQ) return r->op == O_ULT ? con(0, 1) : p;
    if (r->op == O_EQ) return p->op == O_ULT ? con(0, 1) : r;
    if (same) return p->op == O_ULT ? p : r;
    if (p->op == O_ULE && r->op == O_ULE) return bin(O_EQ, p->a, p->b);
    return con(0, 1); }
  // bit i of e as a boolean, if e is put together from booleans; null otherwise
  Expr* bit(Expr* e, unsigned i, int d = 0) {
    if (e->w == 1) return e; if (isC(e)) return con(e->val >> i, 1); if (d > 70) return nullptr;
    switch (e->op) {
    case O_ZEXT: return i < e->a->w ? bit(e->a, i, d + 1) : con(0, 1);
    case O_CONCAT: return i < e->b->w ? bit(e->b, i, d + 1) : bit(e->a, i - e->b->w, d + 1);
    case O_EXTRACT: return bit(e->a, i + e->aux, d + 1);
    case O_NOT: { Expr* x = bit(e->a, i, d + 1); return x ? mkNot(x) : nullptr; }
    case O_AND: case O_OR: case O_XOR: { Expr* x = bit(e->a, i, d + 1); if (!x) return nullptr; Expr* y = bit(e->b, i, d + 1); return y ? bin(e->op, x, y) : nullptr; }
    default: return nullptr; } }
  // an upper bound of the unsigned value
  std::unordered_map<Expr*, u128> UM;
  u128 umax(Expr* e, int depth = 0) { u128 m = maskw(e->w); if (e->op == O_CONST) return e->val; if (depth > 24) return m;
    switch (e->op) { case O_ZEXT: case O_ADD: case O_MUL: case O_UDIV: case O_UREM: case O_EXTRACT: case O_ITE: case O_AND: case O_CONCAT: break; default: return m; }
    auto it = UM.find(e); if (it != UM.end()) return it->second; u128 r = m;
    switch (e->op) { case O_ZEXT: r = umax(e->a, depth + 1); break;
      case O_ADD: { u128 x = umax(e->a, depth + 1), y = umax(e->b, depth + 1); if (y <= m - x) r = x + y; break; }
      case O_MUL: { u128 x = umax(e->a, depth + 1), y = umax(e->b, depth + 1); if (!x || y <= m / x) r = x * y; break; }
      case O_UDIV: if (e->b->op == O_CONST && e->b->val) r = umax(e->a, depth + 1) / e->b->val; break;
      case O_UREM: if (e->b->op == O_CONST && e->b->val) { u128 x = umax(e->a, depth + 1); r = x < e->b->val - 1 ? x : e->b->val - 1; } break;
      case O_EXTRACT: { u128 x = umax(e->a, depth + 1) >> e->aux; if (x < m) r = x; break; }
      case O_ITE: { u128 x = umax(e->b, depth + 1), y = umax(e->c, depth + 1); r = x > y ? x : y; break; }
      case O_AND: if (e->w > 1) { u128 x = umax(e->a, depth + 1), y = umax(e->b, depth + 1); r = x < y ? x : y; } break;
      case O_CONCAT: r = umax(e->a, depth + 1) << e->b->w | maskw(e->b->w); break; default: break; }
    return UM[e] = r; }
  static bool bounded(Expr* e) { switch (e->op) { case O_ZEXT: case O_UDIV: case O_UREM: case O_ADD: case O_MUL: case O_EXTRACT: case O_CONCAT: return true; default: return false; } }
  Expr* bin(Op op, Expr* a, Expr* b) {
    unsigned w = isCmp(op) ? 1 : a->w; unsigned wa = a->w;
    if (isC(a) && isC(b)) return con(fold(op, w, 0, wa, a->val, b->val, 0), w);
    if (comm(op) && (isC(a) || (!isC(b) && a->id > b->id))) { Expr* t = a; a = b; b = t; }
    if (isCmp(op)) {
      if (a == b) return con(op == O_EQ || op == O_ULE || op == O_SLE, 1);
      if (wa > 1 && isC(b) && bounded(a)) { if (op == O_ULT && umax(a) < b->val) return con(1, 1); if (op == O_ULE && umax(a) <= b->val) return con(1, 1); if (op == O_EQ && umax(a) < b->val) return con(0, 1); }
      if (wa > 1 && isC(a) && bounded(b)) { if (op == O_ULT && umax(b) <= a->val) return con(0, 1); if (op == O_ULE && umax(b) < a->val) return con(0, 1); }
      // distribute over if-then-else with a constant arm when the other side is constant
      if (isC(b) && a->op == O_ITE && (isC(a->b) || isC(a->c) || cTree(a, 3))) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
      if (isC(a) && b->op == O_ITE && (isC(b->b) || isC(b->c) || cTree(b, 3))) return ite(b->a, bin(op, a, b->b), bin(op, a, b->c));
      if (wa == 1) {
        if (op == O_EQ) { if (isC(b)) return b->val ? a : mkNot(a); }
        if (op == O_ULT) return bin(O_AND, mkNot(a), b);
        if (op == O_ULE) return bin(O_OR, mkNot(a), b);
      }
      if (op == O_SLT || op == O_SLE) { unsigned x = sig(a), y = sig(b); if (x < wa && y < wa) op = op == O_SLT ? O_ULT : O_ULE; }
      if (op == O_EQ || op == O_ULT || op == O_ULE) {
        // narrow zero-extended operands
        unsigned n = 0;
        if (a->op == O_ZEXT) n = a->a->w; if (b->op == O_ZEXT && b->a->w > n) n = b->a->w;
        if (n && n < wa) { unsigned x = sig(a), y = sig(b); unsigned m = x > y ? x : y; if (m < n && 0) n = m;
          if (isC(b) && y > n) { // constant out of range
            return con(op == O_EQ ? 0 : 1, 1); }
          if (isC(a) && x > n) { return con(0, 1); }
          bool aok = a->op == O_ZEXT || isC(a), bok = b->op == O_ZEXT || isC(b);
          if (aok && bok && n >= x && n >= y) return bin(op, extract(a, 0, n), extract(b, 0, n)); }
      }
      if ((op == O_SLT || op == O_SLE) && a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
      if (op == O_EQ && a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
      if (wa >= 16 && (a->op == O_SEXT || b->op == O_SEXT) && (a->op == O_SEXT || a->op == O_ZEXT || isC(a)) && (b->op == O_SEXT || b->op == O_ZEXT || isC(b))) { unsigned x = ssig(a), y = ssig(b), m = x > y ? x : y; if (m <= NarrowMax) return bin(op, extract(a, 0, m), extract(b, 0, m)); }
      if ((op == O_EQ || op == O_SLT || op == O_SLE) && a->op == O_SEXT && isC(b)) { unsigned n = a->a->w; if ((u128)sextw(b->val & maskw(n), n) == (u128)sextw(b->val, wa)) return bin(op, a->a, con(b->val, n)); if (op == O_EQ) return con(0, 1); }
      if (op == O_ULT && isC(b, 0)) return con(0, 1);
      if (op == O_ULE && isC(a, 0)) return con(1, 1);
      if (op == O_ULT && isC(b, 1)) return bin(O_EQ, a, con(0, wa));
      if (op == O_ULT && isC(a, 0)) return mkNot(bin(O_EQ, b, con(0, wa)));
      if (op == O_ULE && isC(b, 0)) return bin(O_EQ, a, b);
      if (op == O_ULE && isC(b, maskw(wa))) return con(1, 1);
      if (op == O_EQ && isC(b)) {
        if (a->op == O_ADD && isC(a->b)) return bin(O_EQ, a->a, con(b->val - a->b->val, wa));
        if (a->op == O_XOR && isC(a->b)) return bin(O_EQ, a->a, con(b->val ^ a->b->val, wa));
        if (a->op == O_NOT) return bin(O_EQ, a->a, con(~b->val, wa));
        if (isC(b, 0) && a->op == O_SUB) return bin(O_EQ, a->a, a->b);
        if (isC(b, 0) && a->op == O_OR) return bin(O_AND, bin(O_EQ, a->a, b), bin(O_EQ, a->b, b));
        if (isC(b, 0) && a->op == O_XOR) return bin(O_EQ, a->a, a->b);
        if ((a->op == O_AND || a->op == O_OR || a->op == O_XOR) && wa > 1 && wa <= 64 && (a->a->op == O_CONCAT || a->b->op == O_CONCAT || a->a->op == O_NOT || a->b->op == O_NOT || a->a->op == O_ZEXT || a->b->op == O_ZEXT)) { // decide it bit by bit
          Expr* r = con(1, 1); for (unsigned i = 0; i < wa && r; i++) { Expr* x = bit(a, i); if (!x) { r = nullptr; break; } if (!((b->val >> i) & 1)) x = mkNot(x); if (x != r) r = bin(O_AND, r, x); if (isC(r, 0)) break; }
          if (r) return r; }
        if (a->op == O_CONCAT) return bin(O_AND, bin(O_EQ, a->a, con(b->val >> a->b->w, a->a->w)), bin(O_EQ, a->b, con(b->val, a->b->w)));
      }
      return raw(op, 1, a, b);
    }
    if (op == O_SUB || op == O_SDIV || op == O_SREM || (op == O_MUL || op == O_ADD)) { bool zz = (a->op == O_SEXT || b->op == O_SEXT) || (op == O_SUB && a->op == O_ZEXT && b->op == O_ZEXT && a->a->w > 1 && b->a->w > 1); if (zz && a != b) if (Expr* r = narrowS(op, a, b)) return r; }
    if ((op == O_AND || op == O_OR || op == O_XOR) && a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return zext(bin(op, a->a, b->a), w);
    switch (op) {
    case O_ADD: if (isC(b, 0)) return a; if (isC(b) && a->op == O_ADD && isC(a->b)) return bin(O_ADD, a->a, con(a->b->val + b->val, w));
      if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
      if (a->op == O_SUB && a->b == b) return a->a; if (b->op == O_SUB && b->b == a) return b->a;
      break;
    case O_SUB: if (isC(b, 0)) return a; if (a == b) return con(0, w); if (isC(b)) return bin(O_ADD, a, con(-b->val, w));
      if (a->op == O_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      if (a->op == O_ZEXT && a->a->w == 1 && b->op == O_ZEXT && b->a->w == 1) return ite(a->a, ite(b->a, con(0, w), con(1, w)), ite(b->a, con(~(u128)0, w), con(0, w)));
      break;
    case O_MUL: if (isC(b, 0)) return b; if (isC(b, 1)) return a; if (isC(b) && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return bin(O_SHL, a, con(k, w)); }
      if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
      break;
    case O_UDIV: if (isC(b, 1)) return a; if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return bin(O_LSHR, a, con(k, w)); }
      goto narrow;
    case O_UREM: if (isC(b, 1)) return con(0, w); if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(O_AND, a, con(b->val - 1, w));
    narrow: { unsigned x = sig(a), y = sig(b); unsigned m = x > y ? x : y; if (m == 0) m = 1; if (m < w && isC(b) && b->val) return zext(bin(op, extract(a, 0, m), extract(b, 0, m)), w); }
      break;
    case O_SDIV: case O_SREM: { unsigned x = sig(a), y = sig(b); if (x < w && y < w) return bin(op == O_SDIV ? O_UDIV : O_UREM, a, b); if (isC(b, 1)) return op == O_SDIV ? a : con(0, w); break; }
    case O_AND: if (isC(b, 0)) return b; if (isC(b, maskw(w))) return a; if (a == b) return a;
      if (w == 1 && isNegOf(a, b)) return con(0, 1);
      if (w == 1) if (Expr* r = andCmp(a, b)) return r;
      if (isC(b) && a->op == O_AND && isC(a->b)) return bin(O_AND, a->a, con(a->b->val & b->val, w));
      if (isC(b) && a->op == O_ZEXT) { unsigned n = a->a->w; return zext(bin(O_AND, a->a, con(b->val, n)), w); }
      if (isC(b)) { u128 v = b->val; unsigned n = 0; u128 t = v; while (t & 1) { n++; t >>= 1; } if (t == 0 && n < w) return zext(extract(a, 0, n), w); }
      if (isC(b) && a->op == O_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
      if (isC(b) && a->op == O_OR && isC(a->b)) return bin(O_OR, bin(O_AND, a->a, b), con(a->b->val & b->val, w));
      break;
    case O_OR: for (int k = 0; k < 2; k++) { Expr *p = k ? b : a, *q = k ? a : b; // x.0 | y with y fitting the zeros
        Expr* pc = p->op == O_ZEXT ? p->a : p; if (pc->op == O_CONCAT && isC(pc->b, 0) && sig(q) <= pc->b->w) return zext(concat(pc->a, extract(q, 0, pc->b->w)), w); }
      if (isC(b, 0)) return a; if (isC(b, maskw(w))) return b; if (a == b) return a; if (w == 1 && isNegOf(a, b)) return con(1, 1);
      if (w == 1 && isAtom(a) && isAtom(b)) if (Expr* r = andCmp(mkNot(a), mkNot(b))) return mkNot(r);
      if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
      if (isC(b) && a->op == O_OR && isC(a->b)) return bin(O_OR, a->a, con(a->b->val | b->val, w));
      break;
    case O_XOR: if (isC(b, 0)) return a; if (a == b) return con(0, w); if (isC(b, maskw(w))) return mkNot(a);
      if (isC(b) && a->op == O_ZEXT && isC(b, 1) && a->a->w == 1) return zext(mkNot(a->a), w);
      if (isC(b) && a->op == O_XOR && isC(a->b)) return bin(O_XOR, a->a, con(a->b->val ^ b->val, w));
      break;
    case O_SHL: if (isC(b)) { if (isC(b, 0)) return a; if (b->val >= w) return con(0, w); unsigned k = (unsigned)b->val; if (isC(a)) break;
      if (a->op == O_ZEXT && a->a->w + k <= w) return zext(concat(a->a, con(0, k)), w);
      return concat(extract(a, 0, w - k), con(0, k)); } break;
    case O_LSHR: if (isC(b)) { if (isC(b, 0)) return a; if (b->val >= w) return con(0, w); unsigned k = (unsigned)b->val; return zext(extract(a, k, w - k), w); } break;
    case O_ASHR: if (isC(b)) { if (isC(b, 0)) return a; unsigned k = b->val >= w ? w - 1 : (unsigned)b->val; return sext(extract(a, k, w - k), w); } break;
    default: break;
    }
    return raw(op, w, a, b);
  }
  // floating point and conversions
  Expr* fop(Op op, unsigned w, Expr* a, Expr* b = nullptr) {
    if (isC(a) && (!b || isC(b))) return con(fold(op, w, 0, a->w, a->val, b ? b->val : 0, 0), w);
    return raw(op, w, a, b);
  }

  // ---- evaluation under a model (values by global symbol number; missing = 0)
  u64 curStamp = 1;
  const std::vector<u64>* curModel = nullptr;
  std::vector<Expr*> evStack;
  u128 eval(Expr* e) {
    if (e->op == O_CONST) return e->val;
    if (e->stamp == curStamp) return e->mv;
    // iterative post-order to bound recursion
    evStack.clear(); return evalRec(e);
  }
  u128 evalRec(Expr* e) {
    if (e->op == O_CONST) return e->val;
    if (e->stamp == curStamp) return e->mv;
    u128 r;
    switch (e->op) {
    case O_SYM: r = e->aux < curModel->size() ? (*curModel)[e->aux] : 0; r &= maskw(e->w); break;
    case O_CONCAT: r = (evalRec(e->a) << e->b->w) | evalRec(e->b); break;
    case O_ITE: r = evalRec(e->a) ? evalRec(e->b) : evalRec(e->c); break;
    default: { u128 a = e->a ? evalRec(e->a) : 0, b = e->b ? evalRec(e->b) : 0; r = fold(e->op, e->w, e->aux, e->a ? e->a->w : 0, a, b, 0); }
    }
    e->stamp = curStamp; e->mv = r; return r;
  }

  // ---- lowering to Z3
  Z3_context ctx = nullptr;
  Z3_sort bvs[129] = {};
  Z3_sort bvsort(unsigned w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvs[w])); } return bvs[w]; }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  // every term handed out by Z3 is kept for the life of the context
  template<class F, class... A> Z3_ast mk(F f, A... a) { return keep(f(ctx, a...)); }
  Z3_ast b2bv(Z3_ast b) { return mk(Z3_mk_ite, b, mk(Z3_mk_unsigned_int64, 1, bvsort(1)), mk(Z3_mk_unsigned_int64, 0, bvsort(1))); }
  // booleans are represented as BV1 unless lowered through zbool
  std::unordered_map<Expr*, Z3_ast> boolCache;
  Z3_ast zbool(Expr* e) {
    if (e->op == O_CONST) return e->val ? mk(Z3_mk_true) : mk(Z3_mk_false);
    auto it = boolCache.find(e); if (it != boolCache.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
    case O_EQ: if (e->a->w == 1) r = mk(Z3_mk_iff, zbool(e->a), zbool(e->b)); else r = mk(Z3_mk_eq, zast(e->a), zast(e->b)); break;
    case O_ULT: r = mk(Z3_mk_bvult, zast(e->a), zast(e->b)); break;
    case O_ULE: r = mk(Z3_mk_bvule, zast(e->a), zast(e->b)); break;
    case O_SLT: r = mk(Z3_mk_bvslt, zast(e->a), zast(e->b)); break;
    case O_SLE: r = mk(Z3_mk_bvsle, zast(e->a), zast(e->b)); break;
    case O_NOT: r = mk(Z3_mk_not, zbool(e->a)); break;
    case O_AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = mk(Z3_mk_and, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = mk(Z3_mk_or, 2, x); break; }
    case O_XOR: r = mk(Z3_mk_xor, zbool(e->a), zbool(e->b)); break;
    case O_ITE: r = mk(Z3_mk_ite, zbool(e->a), zbool(e->b), zbool(e->c)); break;
    case O_FOEQ: r = mk(Z3_mk_fpa_eq, zfp(e->a), zfp(e->b)); break;
    case O_FOLT: r = mk(Z3_mk_fpa_lt, zfp(e->a), zfp(e->b)); break;
    case O_FOLE: r = mk(Z3_mk_fpa_leq, zfp(e->a), zfp(e->b)); break;
    case O_FUNO: { Z3_ast x[2] = {mk(Z3_mk_fpa_is_nan, zfp(e->a)), mk(Z3_mk_fpa_is_nan, zfp(e->b))}; r = mk(Z3_mk_or, 2, x); break; }
    default: r = mk(Z3_mk_eq, zast(e), mk(Z3_mk_unsigned_int64, 1, bvsort(1))); break;
    }
    boolCache[e] = keep(r); return r;
  }
  Z3_sort fs[2] = {};
  Z3_sort fps(unsigned w) { int k = w == 64; if (!fs[k]) { fs[k] = k ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fs[k])); } return fs[k]; }
  Z3_ast zfp(Expr* e) { // expression's bit pattern as a floating point term
    Z3_ast rm = mk(Z3_mk_fpa_round_nearest_ties_to_even);
    switch (e->op) {
    case O_FADD: return mk(Z3_mk_fpa_add, rm, zfp(e->a), zfp(e->b)); case O_FSUB: return mk(Z3_mk_fpa_sub, rm, zfp(e->a), zfp(e->b));
    case O_FMUL: return mk(Z3_mk_fpa_mul, rm, zfp(e->a), zfp(e->b)); case O_FDIV: return mk(Z3_mk_fpa_div, rm, zfp(e->a), zfp(e->b));
    case O_SITOFP: return mk(Z3_mk_fpa_to_fp_signed, rm, zast(e->a), fps(e->w)); case O_UITOFP: return mk(Z3_mk_fpa_to_fp_unsigned, rm, zast(e->a), fps(e->w));
    case O_FPEXT: case O_FPTRUNC: return mk(Z3_mk_fpa_to_fp_float, rm, zfp(e->a), fps(e->w));
    default: return mk(Z3_mk_fpa_to_fp_bv, zast(e), fps(e->w));
    }
  }
  Z3_ast zast(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r;
    switch (e->op) {
    case O_CONST: if (e->w <= 64) r = mk(Z3_mk_unsigned_int64, (u64)e->val, bvsort(e->w));
      else { std::string s; u128 v = e->val; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); r = mk(Z3_mk_numeral, s.c_str(), bvsort(e->w)); } break;
    case O_SYM: { std::string n = "s" + std::to_string(e->aux); r = mk(Z3_mk_const, Z3_mk_string_symbol(ctx, n.c_str()), bvsort(e->w)); break; }
    case O_ADD: r = mk(Z3_mk_bvadd, zast(e->a), zast(e->b)); break; case O_SUB: r = mk(Z3_mk_bvsub, zast(e->a), zast(e->b)); break;
    case O_MUL: r = mk(Z3_mk_bvmul, zast(e->a), zast(e->b)); break;
    case O_UDIV: r = mk(Z3_mk_bvudiv, zast(e->a), zast(e->b)); break; case O_UREM: r = mk(Z3_mk_bvurem, zast(e->a), zast(e->b)); break;
    case O_SDIV: r = mk(Z3_mk_bvsdiv, zast(e->a), zast(e->b)); break; case O_SREM: r = mk(Z3_mk_bvsrem, zast(e->a), zast(e->b)); break;
    case O_AND: if (e->w == 1) { r = b2bv(zbool(e)); break; } r = mk(Z3_mk_bvand, zast(e->a), zast(e->b)); break;
    case O_OR: if (e->w == 1) { r = b2bv(zbool(e)); break; } r = mk(Z3_mk_bvor, zast(e->a), zast(e->b)); break;
    case O_XOR: r = mk(Z3_mk_bvxor, zast(e->a), zast(e->b)); break;
    case O_NOT: r = mk(Z3_mk_bvnot, zast(e->a)); break;
    case O_SHL: r = mk(Z3_mk_bvshl, zast(e->a), zast(e->b)); break; case O_LSHR: r = mk(Z3_mk_bvlshr, zast(e->a), zast(e->b)); break; case O_ASHR: r = mk(Z3_mk_bvashr, zast(e->a), zast(e->b)); break;
    case O_ITE: r = mk(Z3_mk_ite, zbool(e->a), zast(e->b), zast(e->c)); break;
    case O_ZEXT: r = mk(Z3_mk_zero_ext, e->w - e->a->w, zast(e->a)); break; case O_SEXT: r = mk(Z3_mk_sign_ext, e->w - e->a->w, zast(e->a)); break;
    case O_EXTRACT: r = mk(Z3_mk_extract, e->aux + e->w - 1, e->aux, zast(e->a)); break;
    case O_CONCAT: r = mk(Z3_mk_concat, zast(e->a), zast(e->b)); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC: r = mk(Z3_mk_fpa_to_ieee_bv, zfp(e)); break;
    case O_FPTOSI: r = mk(Z3_mk_fpa_to_sbv, mk(Z3_mk_fpa_round_toward_zero), zfp(e->a), e->w); break;
    case O_FPTOUI: r = mk(Z3_mk_fpa_to_ubv, mk(Z3_mk_fpa_round_toward_zero), zfp(e->a), e->w); break;
    default: r = b2bv(zbool(e)); break;
    }
    e->z = keep(r); return r;
  }
};
