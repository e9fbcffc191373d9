// Rendering of queries in linear integer and real arithmetic. Bit-vector operations are exact (wrap-around is an
// explicit integer variable). Each floating-point operation is its exact real result plus a rounding error of at
// most half an ulp, so an unsatisfiable rendering means an unsatisfiable query; models are checked by evaluation.
#pragma once
#include "expr.h"
#include <unordered_set>
#include <map>
struct NotLinear {};
struct Lin {
  Z3_context c; ExprPool* X; Z3_sort is = 0, rs = 0; unsigned fresh = 0;
  struct Info { Z3_ast t = 0, pre = 0; std::vector<Z3_ast> defs, exact, margin; bool bad = false; };
  std::unordered_map<Expr*, Info> I, R, B; std::unordered_map<Expr*, u128> H;
  Z3_ast k(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  void init(Z3_context ctx, ExprPool* p) { c = ctx; X = p; is = Z3_mk_int_sort(c); rs = Z3_mk_real_sort(c); Z3_inc_ref(c, Z3_sort_to_ast(c, is)); Z3_inc_ref(c, Z3_sort_to_ast(c, rs)); }
  static std::string dec(u128 v) { std::string s; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
  static std::string pow2(unsigned n) { std::vector<int> d(1, 1); for (unsigned i = 0; i < n; i++) { int cy = 0; for (auto& x : d) { x = x * 2 + cy; cy = x / 10; x %= 10; } if (cy) d.push_back(cy); } std::string s; for (size_t i = d.size(); i-- > 0;) s += char('0' + d[i]); return s; }
  Z3_ast n(u128 v) { return k(Z3_mk_numeral(c, dec(v).c_str(), is)); }
  Z3_ast q(const std::string& s) { return k(Z3_mk_numeral(c, s.c_str(), rs)); }
  Z3_ast rat(double d) { int e; double m = std::frexp(d, &e); i128 mi = (i128)std::ldexp(m, 53); e -= 53; bool ng = mi < 0; if (ng) mi = -mi; while (mi && !(mi & 1)) { mi >>= 1; e++; } std::string s = dec((u128)mi); Z3_ast r = e >= 0 ? mul2(q(s), q(pow2(e))) : q(s + "/" + pow2(-e)); return ng ? k(Z3_mk_unary_minus(c, r)) : r; }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(Z3_mk_add(c, 2, x)); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(Z3_mk_sub(c, 2, x)); }
  Z3_ast mul2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(Z3_mk_mul(c, 2, x)); }
  Z3_ast le(Z3_ast a, Z3_ast b) { return k(Z3_mk_le(c, a, b)); }
  Z3_ast lt(Z3_ast a, Z3_ast b) { return k(Z3_mk_lt(c, a, b)); }
  Z3_ast eq(Z3_ast a, Z3_ast b) { return k(Z3_mk_eq(c, a, b)); }
  Z3_ast ite(Z3_ast a, Z3_ast b, Z3_ast d) { return k(Z3_mk_ite(c, a, b, d)); }
  Z3_ast land(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(Z3_mk_and(c, 2, x)); }
  Z3_ast lor(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(Z3_mk_or(c, 2, x)); }
  Z3_ast var(Z3_sort s) { std::string nm = "x" + std::to_string(fresh++); return k(Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), s)); }
  u128 sadd(u128 a, u128 b) { return a + b < a ? ~(u128)0 : a + b; }
  u128 smul(u128 a, u128 b) { return a && b > ~(u128)0 / a ? ~(u128)0 : a * b; }
  // an upper bound of the unsigned value
  u128 hi(Expr* e) { if (e->op == O_CONST) return e->val; auto it = H.find(e); if (it != H.end()) return it->second; u128 m = maskw(e->w), r = m;
    switch (e->op) { case O_ZEXT: r = hi(e->a); break; case O_ADD: { u128 s = sadd(hi(e->a), hi(e->b)); if (s <= m) r = s; break; } case O_MUL: { u128 s = smul(hi(e->a), hi(e->b)); if (s <= m) r = s; break; }
      case O_UDIV: if (e->b->op == O_CONST && e->b->val) r = hi(e->a) / e->b->val; break; case O_UREM: if (e->b->op == O_CONST && e->b->val) r = e->b->val - 1; break;
      case O_EXTRACT: { u128 h = hi(e->a) >> e->aux; if (h < m) r = h; break; } case O_CONCAT: r = hi(e->a) << e->b->w | maskw(e->b->w); break; case O_ITE: { u128 x = hi(e->b), y = hi(e->c); r = x > y ? x : y; break; } default: break; }
    return H[e] = r; }
  // r = t - 2^w * k with 0 <= r < 2^w
  Z3_ast wrap(Info& f, Z3_ast t, unsigned w, bool neg, u128 maxk) { Z3_ast r = var(is), kk = var(is), M = k(Z3_mk_numeral(c, pow2(w).c_str(), is)); f.defs.push_back(eq(t, add(r, mul2(M, kk)))); f.defs.push_back(le(n(0), r)); f.defs.push_back(lt(r, M)); f.defs.push_back(le(neg ? k(Z3_mk_numeral(c, "-1", is)) : n(0), kk)); f.defs.push_back(le(kk, n(neg ? 0 : maxk))); return r; }
  // quotient and remainder by a constant, shared by all uses; a quotient of a quotient is one of the first dividend
  struct Quot { Z3_ast q, r; std::vector<Z3_ast> defs; };
  std::map<std::pair<Expr*, u128>, Quot> Q;
  Quot& quot(Expr* x, u128 by) { auto it = Q.find({x, by}); if (it != Q.end()) return it->second; Z3_ast a = zi(x); Quot d;
    if (x->op == O_UDIV && x->b->op == O_CONST && x->b->val && by <= maskw(x->w) / x->b->val) { Quot& o = quot(x->a, x->b->val * by); d.q = o.q; d.defs = o.defs; d.r = k(Z3_mk_const(c, Z3_mk_string_symbol(c, ("r" + std::to_string(fresh++)).c_str()), is)); }
    else { d.q = var(is); d.r = var(is); }
    d.defs.push_back(eq(a, add(mul2(n(by), d.q), d.r))); d.defs.push_back(le(n(0), d.r)); d.defs.push_back(lt(d.r, n(by))); d.defs.push_back(le(n(0), d.q)); return Q[{x, by}] = d; }
  Z3_ast signedOf(Expr* e) { unsigned w = e->w; Z3_ast t = zi(e), M = k(Z3_mk_numeral(c, pow2(w).c_str(), is)); if (hi(e) < (u128)1 << (w - 1)) return t; return ite(lt(t, k(Z3_mk_numeral(c, pow2(w - 1).c_str(), is))), t, sub(t, M)); }
  Z3_ast zi(Expr* e) {
    if (e->op == O_CONST) return n(e->val);
    auto it = I.find(e); if (it != I.end()) { if (it->second.bad) throw NotLinear(); return it->second.t; }
    Info f; unsigned w = e->w; u128 m = maskw(w);
    try { switch (e->op) {
    case O_SYM: { std::string nm = "s" + std::to_string(e->aux); f.t = k(Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), is)); f.defs.push_back(le(n(0), f.t)); f.defs.push_back(le(f.t, n(m))); break; }
    case O_ZEXT: f.t = zi(e->a); break;
    case O_SEXT: { Z3_ast a = zi(e->a); unsigned wa = e->a->w; if (hi(e->a) < (u128)1 << (wa - 1)) { f.t = a; break; } Z3_ast d = sub(k(Z3_mk_numeral(c, pow2(w).c_str(), is)), k(Z3_mk_numeral(c, pow2(wa).c_str(), is))); f.t = ite(lt(a, n((u128)1 << (wa - 1))), a, add(a, d)); break; }
    case O_ADD: { Z3_ast t = add(zi(e->a), zi(e->b)); if (sadd(hi(e->a), hi(e->b)) <= m) f.t = t; else { if (w >= 128) throw NotLinear(); f.t = wrap(f, t, w, false, 1); } break; }
    case O_SUB: f.t = wrap(f, sub(zi(e->a), zi(e->b)), w, true, 0); break;
    case O_MUL: { if (e->b->op != O_CONST && e->a->op != O_CONST) throw NotLinear(); u128 ha = hi(e->a), hb = hi(e->b); Z3_ast t = mul2(zi(e->a), zi(e->b)); u128 p = smul(ha, hb); if (p <= m) f.t = t; else { if (p == ~(u128)0) throw NotLinear(); f.t = wrap(f, t, w, false, p >> w); } break; }
    case O_UDIV: case O_UREM: { if (e->b->op != O_CONST || !e->b->val) throw NotLinear(); Quot& d = quot(e->a, e->b->val); for (Z3_ast a : d.defs) f.defs.push_back(a); f.t = e->op == O_UDIV ? d.q : d.r; break; }
    case O_EXTRACT: { Z3_ast a = zi(e->a); unsigned off = e->aux; u128 h = hi(e->a); Z3_ast r = a;
      if (off) { Z3_ast qq = var(is), lo = var(is), M = k(Z3_mk_numeral(c, pow2(off).c_str(), is)); f.defs.push_back(eq(a, add(mul2(M, qq), lo))); f.defs.push_back(le(n(0), lo)); f.defs.push_back(lt(lo, M)); f.defs.push_back(le(n(0), qq)); r = qq; h >>= off; }
      if (h > m) r = wrap(f, r, w, false, h >> w); f.t = r; break; }
    case O_CONCAT: f.t = add(mul2(zi(e->a), k(Z3_mk_numeral(c, pow2(e->b->w).c_str(), is))), zi(e->b)); break;
    case O_ITE: f.t = ite(zb(e->a), zi(e->b), zi(e->c)); break;
    case O_NOT: if (w == 1) { f.t = ite(zb(e), n(1), n(0)); break; } f.t = sub(n(m), zi(e->a)); break;
    case O_FPTOUI: { Z3_ast x = zr(e->a), t = var(is), rt = k(Z3_mk_int2real(c, t)), z = q("0"); f.defs.push_back(le(n(0), t)); f.defs.push_back(ite(lt(x, z), eq(t, n(0)), land(le(rt, x), lt(x, add(rt, q("1"))))));
      f.margin.push_back(land(le(add(rt, q("1/1048576")), x), le(x, add(rt, q("1048575/1048576"))))); f.t = t; break; }
    case O_FPTOSI: { Z3_ast x = zr(e->a), t = var(is), rt = k(Z3_mk_int2real(c, t)), z = q("0"); f.defs.push_back(ite(lt(x, z), land(le(x, rt), lt(sub(rt, q("1")), x)), land(le(rt, x), lt(x, add(rt, q("1")))))); f.defs.push_back(ite(lt(x, z), le(t, n(0)), le(n(0), t)));
      f.margin.push_back(ite(lt(x, z), land(le(add(x, q("1/1048576")), rt), le(add(sub(rt, q("1")), q("1/1048576")), x)), land(le(add(rt, q("1/1048576")), x), le(x, add(rt, q("1048575/1048576"))))));
      f.t = ite(lt(t, n(0)), add(t, k(Z3_mk_numeral(c, pow2(w).c_str(), is))), t); break; }
    default: if (w == 1) { f.t = ite(zb(e), n(1), n(0)); break; } throw NotLinear(); } }
    catch (NotLinear&) { f.bad = true; I[e] = f; throw; }
    Z3_ast t = f.t; I[e] = std::move(f); return t; }
  static double cval(Expr* e) { double d; u64 b = (u64)e->val; memcpy(&d, &b, 8); return d; }
  // largest magnitude, and whether it can be negative
  struct Mag { long double m; bool neg; };
  std::unordered_map<Expr*, Mag> MG;
  Mag mag(Expr* e) { auto it = MG.find(e); if (it != MG.end()) return it->second; Mag r = {0, false};
    switch (e->op) { case O_CONST: { double d; if (e->w == 64) { u64 b = (u64)e->val; memcpy(&d, &b, 8); } else { u32 b = (u32)e->val; float g; memcpy(&g, &b, 4); d = g; } if (!std::isfinite(d)) throw NotLinear(); r = {fabsl(d), d < 0}; break; }
      case O_UITOFP: r = {(long double)hi(e->a), false}; break; case O_SITOFP: r = {ldexpl(1, e->a->w - 1), true}; if (hi(e->a) < (u128)1 << (e->a->w - 1)) r = {(long double)hi(e->a), false}; break;
      case O_FADD: { Mag a = mag(e->a), b = mag(e->b); r = {a.m + b.m, a.neg || b.neg}; break; } case O_FSUB: { Mag a = mag(e->a), b = mag(e->b); r = {a.m + b.m, true}; break; }
      case O_FMUL: { Mag a = mag(e->a), b = mag(e->b); r = {a.m * b.m, a.neg || b.neg}; break; } case O_FDIV: { if (e->b->op != O_CONST) throw NotLinear(); Mag a = mag(e->a), b = mag(e->b); if (b.m == 0) throw NotLinear(); r = {a.m / b.m, a.neg || b.neg}; break; }
      case O_XOR: case O_ITE: { Mag a = mag(e->op == O_ITE ? e->b : e->a), b = e->op == O_ITE ? mag(e->c) : a; r = {a.m > b.m ? a.m : b.m, true}; break; } case O_FPEXT: case O_FPTRUNC: r = mag(e->a); break; default: throw NotLinear(); }
    if (r.m > 1e250L || (e->w == 32 && r.m > 1e30L)) throw NotLinear(); return MG[e] = r; }
  static bool isPow2(Expr* e) { if (e->op != O_CONST) return false; return e->w == 64 ? !((u64)e->val & 0xfffffffffffffull) && (((u64)e->val >> 52 & 0x7ff) > 900 && ((u64)e->val >> 52 & 0x7ff) < 1150) : false; }
  // integral for every input; such a value is not rounded when it fits the significand
  bool integral(Expr* e) { switch (e->op) { case O_UITOFP: case O_SITOFP: return true; case O_CONST: { double d; if (e->w != 64) return false; u64 b = (u64)e->val; memcpy(&d, &b, 8); return d == std::floor(d); } case O_FADD: case O_FSUB: case O_FMUL: return integral(e->a) && integral(e->b); case O_XOR: return integral(e->a); case O_ITE: return integral(e->b) && integral(e->c); default: return false; } }
  // a lower bound of the magnitude of every nonzero value (0: not known)
  long double least(Expr* e) { switch (e->op) { case O_UITOFP: case O_SITOFP: return 1; case O_CONST: return e->w == 64 ? fabsl(cval(e)) : 0; case O_FMUL: return least(e->a) * least(e->b) * 0.99L; case O_FDIV: return e->b->op == O_CONST ? least(e->a) / mag(e->b).m * 0.99L : 0; case O_XOR: return least(e->a); case O_ITE: { long double x = least(e->b), y = least(e->c); return x < y ? x : y; } case O_FPEXT: return least(e->a); default: return 0; } }
  Z3_ast rnd(Info& f, Expr* e, Z3_ast x) { if (integral(e) && mag(e).m <= (e->w == 64 ? 9007199254740992.0L : 16777216.0L)) return x; bool neg = mag(e).neg; Z3_ast r = var(rs), ax = neg ? ite(lt(x, q("0")), k(Z3_mk_unary_minus(c, x)), x) : x, err = mul2(ax, q(e->w == 64 ? "1/9007199254740992" : "1/16777216"));
    // sums are exact below the normal range, and so is anything that stays above it
    if (!(e->op == O_FADD || e->op == O_FSUB || e->op == O_UITOFP || e->op == O_SITOFP || least(e) > (e->w == 64 ? 1e-290L : 1e-30L))) err = add(err, q("1/" + pow2(e->w == 64 ? 1074 : 149)));
    f.defs.push_back(le(sub(x, err), r)); f.defs.push_back(le(r, add(x, err))); if (!neg) f.defs.push_back(le(q("0"), r)); else f.defs.push_back(ite(lt(x, q("0")), le(r, q("0")), le(q("0"), r)));
    f.exact.push_back(eq(r, x)); f.pre = x; return r; }
  Z3_ast zr(Expr* e) {
    auto it = R.find(e); if (it != R.end()) { if (it->second.bad) throw NotLinear(); return it->second.t; }
    Info f;
    try { mag(e); switch (e->op) {
    case O_CONST: { double d; if (e->w == 64) { u64 b = (u64)e->val; memcpy(&d, &b, 8); } else { u32 b = (u32)e->val; float g; memcpy(&g, &b, 4); d = g; } f.t = d == 0 ? q("0") : rat(d); break; }
    case O_UITOFP: { Z3_ast x = k(Z3_mk_int2real(c, zi(e->a))); f.t = hi(e->a) <= (u128)1 << (e->w == 64 ? 53 : 24) ? x : rnd(f, e, x); break; }
    case O_SITOFP: { Z3_ast x = k(Z3_mk_int2real(c, signedOf(e->a))); f.t = e->a->w <= (e->w == 64 ? 54 : 25) || hi(e->a) <= (u128)1 << (e->w == 64 ? 53 : 24) ? x : rnd(f, e, x); break; }
    case O_FADD: f.t = rnd(f, e, add(zr(e->a), zr(e->b))); break; case O_FSUB: f.t = rnd(f, e, sub(zr(e->a), zr(e->b))); break;
    case O_FMUL: { if (e->a->op != O_CONST && e->b->op != O_CONST) throw NotLinear(); Z3_ast x = mul2(zr(e->a), zr(e->b)); f.t = isPow2(e->a) || isPow2(e->b) ? x : rnd(f, e, x); break; }
    case O_FDIV: { Z3_ast x = k(Z3_mk_div(c, zr(e->a), zr(e->b))); f.t = isPow2(e->b) ? x : rnd(f, e, x); break; }
    case O_XOR: { if (e->b->op != O_CONST || e->b->val != (u128)1 << (e->w - 1)) throw NotLinear(); f.t = k(Z3_mk_unary_minus(c, zr(e->a))); break; }
    case O_ITE: f.t = ite(zb(e->a), zr(e->b), zr(e->c)); break;
    case O_FPEXT: f.t = zr(e->a); break; case O_FPTRUNC: f.t = rnd(f, e, zr(e->a)); break;
    default: throw NotLinear(); } }
    catch (NotLinear&) { f.bad = true; R[e] = f; throw; }
    Z3_ast t = f.t; R[e] = std::move(f); return t; }
  // rounding is monotone and deterministic: where the exact value lies around a representable value v tells on
  // which side of v (or at v) the rounded value lies
  void landmark(Expr* e, double v, Info& f, int depth = 0) {
    if (e->w != 64 || depth > 8 || !std::isfinite(v)) return; auto it = R.find(e);
    if (it != R.end() && it->second.pre && std::fabs(v) > 1e-280) { Z3_ast x = it->second.pre, r = it->second.t, V = rat(v); u64 b; memcpy(&b, &v, 8); bool even = !(b & 1);
      double dn = std::nextafter(v, -INFINITY), up = std::nextafter(v, INFINITY); Z3_ast lo = k(Z3_mk_div(c, add(rat(dn), V), q("2"))), hiq = k(Z3_mk_div(c, add(rat(up), V), q("2")));
      f.defs.push_back(k(Z3_mk_iff(c, even ? le(lo, x) : lt(lo, x), le(V, r)))); f.defs.push_back(k(Z3_mk_iff(c, even ? le(x, hiq) : lt(x, hiq), le(r, V)))); }
    auto cst = [&](Expr* y, double& d) { if (y->op != O_CONST || y->w != 64) return false; u64 b = (u64)y->val; memcpy(&d, &b, 8); return true; }; double d;
    switch (e->op) { case O_FDIV: if (cst(e->b, d)) landmark(e->a, v * d, f, depth + 1); break;
      case O_FMUL: if (cst(e->b, d) && d != 0) landmark(e->a, v / d, f, depth + 1); else if (cst(e->a, d) && d != 0) landmark(e->b, v / d, f, depth + 1); break;
      case O_FADD: if (cst(e->b, d)) landmark(e->a, v - d, f, depth + 1); else if (cst(e->a, d)) landmark(e->b, v - d, f, depth + 1); break;
      case O_FSUB: if (cst(e->b, d)) landmark(e->a, v + d, f, depth + 1); break; default: break; } }
  Z3_ast zb(Expr* e) {
    if (e->op == O_CONST) return e->val ? k(Z3_mk_true(c)) : k(Z3_mk_false(c));
    auto it = B.find(e); if (it != B.end()) { if (it->second.bad) throw NotLinear(); return it->second.t; }
    Info f;
    try { switch (e->op) {
    case O_EQ: f.t = e->a->w == 1 ? k(Z3_mk_iff(c, zb(e->a), zb(e->b))) : eq(zi(e->a), zi(e->b)); break;
    case O_ULT: f.t = lt(zi(e->a), zi(e->b)); break; case O_ULE: f.t = le(zi(e->a), zi(e->b)); break;
    case O_SLT: f.t = lt(signedOf(e->a), signedOf(e->b)); break; case O_SLE: f.t = le(signedOf(e->a), signedOf(e->b)); break;
    case O_NOT: f.t = k(Z3_mk_not(c, zb(e->a))); break; case O_AND: f.t = land(zb(e->a), zb(e->b)); break; case O_OR: f.t = lor(zb(e->a), zb(e->b)); break; case O_XOR: f.t = k(Z3_mk_xor(c, zb(e->a), zb(e->b))); break;
    case O_ITE: f.t = ite(zb(e->a), zb(e->b), zb(e->c)); break;
    case O_FOEQ: case O_FOLT: case O_FOLE: { Z3_ast a = zr(e->a), b = zr(e->b); f.t = e->op == O_FOEQ ? eq(a, b) : e->op == O_FOLT ? lt(a, b) : le(a, b); Mag ma = mag(e->a), mb = mag(e->b); if (e->b->op == O_CONST && e->b->w == 64) landmark(e->a, cval(e->b), f); else if (e->a->op == O_CONST && e->a->w == 64) landmark(e->b, cval(e->a), f); Z3_ast d = rat(std::ldexp(1.0, -20) * (1 + (double)(e->b->op == O_CONST ? mb.m : e->a->op == O_CONST ? ma.m : 1.0L))); f.margin.push_back(lor(le(add(a, d), b), le(add(b, d), a))); break; }
    case O_FUNO: zr(e->a); zr(e->b); f.t = k(Z3_mk_false(c)); break;
    case O_SYM: case O_EXTRACT: case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_UREM: f.t = eq(zi(e), n(1)); break;
    default: throw NotLinear(); } }
    catch (NotLinear&) { f.bad = true; B[e] = f; throw; }
    Z3_ast t = f.t; B[e] = std::move(f); return t; }
  // a constraint together with the definitions it rests on; exact / margin pick out well separated models
  void gather(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Z3_ast>& defs, std::vector<Z3_ast>* more) { if (!e || !seen.insert(e).second) return; for (auto* M : {&I, &R, &B}) { auto it = M->find(e); if (it != M->end() && !it->second.bad) { for (Z3_ast a : it->second.defs) defs.push_back(a); if (more) { for (Z3_ast a : it->second.exact) more->push_back(a); for (Z3_ast a : it->second.margin) more->push_back(a); } } } gather(e->a, seen, defs, more); gather(e->b, seen, defs, more); gather(e->c, seen, defs, more); }
  Z3_ast full(Expr* e) { Z3_ast t = zb(e); std::unordered_set<Expr*> seen; std::vector<Z3_ast> v; gather(e, seen, v, nullptr); v.push_back(t); return k(Z3_mk_and(c, v.size(), v.data())); }
  // the integer part of a constraint: conversions from floating point stand for any integer; false: nothing is left of it
  bool abstracted(Expr* e, std::vector<Z3_ast>& out) { Z3_ast t = zb(e); std::unordered_set<Expr*> seen; std::vector<Z3_ast> v; if (!gatherInt(e, seen, v)) return false; out.insert(out.end(), v.begin(), v.end()); out.push_back(t); return true; }
  bool gatherInt(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Z3_ast>& defs) { if (!e || !seen.insert(e).second) return true; switch (e->op) { case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: return true; case O_FPTOUI: case O_FPTOSI: { Z3_ast t = zi(e); defs.push_back(le(n(0), t)); defs.push_back(le(t, n(maskw(e->w)))); return true; } default: break; }
    for (auto* M : {&I, &B}) { auto it = M->find(e); if (it != M->end() && !it->second.bad) for (Z3_ast a : it->second.defs) defs.push_back(a); } return gatherInt(e->a, seen, defs) && gatherInt(e->b, seen, defs) && gatherInt(e->c, seen, defs); }
  std::vector<Z3_ast> separated(const std::vector<Expr*>& pc, Expr* extra) { std::unordered_set<Expr*> seen; std::vector<Z3_ast> d, m; for (Expr* e : pc) gather(e, seen, d, &m); gather(extra, seen, d, &m); return m; }
};
