// msym: a path-forking symbolic executor for LLVM bitcode, deciding assertions with Z3.
// See /verif/DESIGN.md for what is modelled and what is trusted.
#include "expr.h"
#include "lin.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <atomic>
#include <chrono>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cmath>
#include <errno.h>

using std::string; using std::vector; using std::map; using std::pair;

static ExprPool X;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static struct Opts {
  string bc, out; vector<string> entries; int jobs = 1; double budget = 100; u64 maxSteps = 20000000; unsigned qTimeoutMs = 20000;
  unsigned samples = 64; unsigned maxViol = 25; bool trace = false; string values; string repo = "/repo"; u64 seed = 1; bool cov = false; u64 memMB = 0; bool checkUndef = true; unsigned maxEnum = 4096; bool closure = true, audit = false; bool bvSolver = false, intOrder = true, useLin = true, lin = false;
} opt;

// ------------------------------------------------------------------ shared statistics
struct Shared {
  std::atomic<int> tokens; std::atomic<int> stop; // stop: 1 = budget, 2 = violations
  std::atomic<u64> started, finished, paths, forks, insts, bbs, queries, qsat, qunsat, qunknown, asserts, assertQueries, solverUs, viol, infeasible, incomplete, unsupported, unknownPaths, samples, quickHits, symPaths, maxPc, constAsserts, closureHits, closureAsserts, obligQueries, intQueries, linQueries;
  u8 cov[]; 
};
static Shared* sh;
static int outFd = -1; static pid_t rootPid;

static string jesc(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void outLine(const string& s) { string t = s + "\n"; size_t o = 0; while (o < t.size()) { ssize_t n = write(outFd, t.data() + o, t.size() - o); if (n <= 0) break; o += n; } }

// ------------------------------------------------------------------ values
struct Val { u64 c; Expr* e; };
static Expr* const AGG = (Expr*)1;
struct AggV { vector<Val> v; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val VE(Expr* e) { if (e->op == O_CONST && e->w <= 64) return VC((u64)e->val); return Val{0, e}; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : X.con(v.c, w); }
static Val mkAgg(vector<Val> v) { AggV* a = new AggV; a->v = std::move(v); return Val{(u64)(uintptr_t)a, AGG}; }

// ------------------------------------------------------------------ memory
enum ObjKind : u8 { K_NEW, K_NEWARR, K_MALLOC, K_STACK, K_GLOBAL, K_CONST, K_EXC };
static const char* kindName[] = {"new", "new[]", "malloc", "stack", "global", "const", "exception"};
struct SymByte { Expr* e; u8 idx; };
struct Obj {
  u32 ref = 0; u64 size = 0; ObjKind kind; bool freed = false; bool hasSym = false;
  vector<u8> d, st; // st: 0 concrete, 1 undefined, 2 symbolic
  vector<SymByte> sy;
  Obj(u64 n, ObjKind k, bool undef) : size(n), kind(k), d(n, 0), st(n, undef ? 1 : 0) {}
};
static const int CH = 32;
struct Chunk { u32 ref = 0; Obj* o[CH] = {}; };
static const u64 OBJ_SHIFT = 28, OBJ_BASE = 0x1000;
static u64 addrOf(u64 id) { return (id << OBJ_SHIFT) + OBJ_BASE; }
static void decObj(Obj* o) { if (o && --o->ref == 0) delete o; }
static void decChunk(Chunk* c) { if (c && --c->ref == 0) { for (auto o : c->o) decObj(o); delete c; } }
struct Mem {
  vector<Chunk*> ch; u64 nextId = 1;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), nextId(m.nextId) { for (auto c : ch) if (c) c->ref++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto c : ch) decChunk(c); }
  Obj* get(u64 id) const { size_t i = id / CH; return i < ch.size() && ch[i] ? ch[i]->o[id % CH] : nullptr; }
  Chunk* wchunk(size_t i) { if (i >= ch.size()) ch.resize(i + 1, nullptr); Chunk*& c = ch[i]; if (!c) { c = new Chunk; c->ref = 1; } else if (c->ref > 1) { Chunk* n = new Chunk; n->ref = 1; for (int k = 0; k < CH; k++) { n->o[k] = c->o[k]; if (n->o[k]) n->o[k]->ref++; } c->ref--; c = n; } return c; }
  Obj* wget(u64 id) { Obj* o = get(id); if (!o) return nullptr; Chunk* c = wchunk(id / CH); Obj*& s = c->o[id % CH]; if (s->ref > 1) { Obj* n = new Obj(*s); n->ref = 1; s->ref--; s = n; } return s; }
  u64 add(Obj* o) { u64 id = nextId++; o->ref = 1; wchunk(id / CH)->o[id % CH] = o; return id; }
  void drop(u64 id) { Chunk* c = wchunk(id / CH); decObj(c->o[id % CH]); c->o[id % CH] = nullptr; }
};

// ------------------------------------------------------------------ code
struct Opnd { int reg = -1; Val k{0, nullptr}; unsigned w = 0; };
struct Func;
struct DInst {
  unsigned opc = 0; unsigned w = 0; int dst = -1; vector<Opnd> ops; llvm::Instruction* I = nullptr; int bb0 = -1, bb1 = -1; unsigned pred = 0;
  vector<pair<u64, int>> cases; int64_t off = 0; vector<pair<int, int64_t>> idx; Func* callee = nullptr; int builtin = 0; u64 size = 0; llvm::Type* ty = nullptr; vector<u64> byval; vector<unsigned> agg; bool zeroSized = false, nsw = false;
};
struct DPhi { int dst; vector<pair<int, Opnd>> in; };
struct DBlock { vector<DPhi> phis; vector<DInst> ins; u32 covIdx = 0; llvm::BasicBlock* B = nullptr; };
struct Func { llvm::Function* F = nullptr; string name; bool decoded = false; int nregs = 0; vector<DBlock> bbs; u64 addr = 0; int builtin = 0; u32 covBase = 0; bool repo = false; };

static llvm::LLVMContext LC; static std::unique_ptr<llvm::Module> M; static const llvm::DataLayout* DL;
static std::unordered_map<const llvm::Function*, Func*> funcOf; static std::unordered_map<u64, Func*> funcAt; static vector<Func*> funcs;
static std::unordered_map<const llvm::GlobalVariable*, u64> globAddr; static std::unordered_map<u64, const llvm::GlobalVariable*> globAt;
static const u64 FN_BASE = 0x7F00000000000000ull;

struct Frame { Func* f; int bb, prev; int ip; vector<Val> r; vector<u64> allocas; u64 freeOnRet = 0; vector<Val> va; };
struct Model { u64 stamp; vector<u64> v; };
static u64 nextStamp = 2;
typedef std::shared_ptr<Model> ModelP;
struct Exc { u64 ptr, ti, dtor; int handlers; bool rethrown; };
struct OutV { Val v; };
// Order facts of a path, closed under transitivity: r[i*n+j] = 1 when node i <= node j, 2 when node i < node j (unsigned, same width).
struct Order {
  vector<Expr*> nd; vector<u8> r; vector<pair<Expr*, Expr*>> ne;
  int find(Expr* e) const { for (size_t i = nd.size(); i-- > 0;) if (nd[i] == e) return (int)i; return -1; }
  int node(Expr* e) { int k = find(e); if (k >= 0) return k; if (nd.size() >= 96) return -1; size_t n = nd.size(); vector<u8> q((n + 1) * (n + 1), 0); for (size_t i = 0; i < n; i++) memcpy(&q[i * (n + 1)], r.data() + i * n, n); r.swap(q); nd.push_back(e);
    r[n * (n + 1) + n] = 1; if (e->op == O_CONST) for (size_t i = 0; i < n; i++) if (nd[i]->op == O_CONST && nd[i]->w == e->w) { if (nd[i]->val < e->val) edge(i, n, 2); else edge(n, i, 2); } return (int)n; }
  bool isNe(Expr* a, Expr* b) const { for (auto& p : ne) if ((p.first == a && p.second == b) || (p.first == b && p.second == a)) return true; return false; }
  void edge(int i, int j, u8 k) { size_t n = nd.size(); if (k == 1 && isNe(nd[i], nd[j])) k = 2; if (r[i * n + j] >= k) return;
    for (size_t a = 0; a < n; a++) { u8 x = r[a * n + i]; if (!x) continue; for (size_t b = 0; b < n; b++) { u8 y = r[j * n + b]; if (!y) continue; u8 v = (x == 2 || y == 2 || k == 2) ? 2 : 1; if (r[a * n + b] < v) r[a * n + b] = v; } } }
  void add(Expr* c) { // a conjunct that holds on the path
    if (c->op == O_NOT && c->a->op == O_EQ) { Expr *a = c->a->a, *b = c->a->b; if (a->w == 1) return; ne.push_back({a, b}); int i = find(a), j = find(b); if (i >= 0 && j >= 0) { size_t n = nd.size(); if (r[i * n + j] == 1) edge(i, j, 2); else if (r[j * n + i] == 1) edge(j, i, 2); } return; }
    if (c->op != O_ULT && c->op != O_ULE && c->op != O_EQ) return; if (c->a->w == 1) return;
    int i = node(c->a), j = node(c->b); if (i < 0 || j < 0) return;
    if (c->op == O_ULT) edge(i, j, 2); else { edge(i, j, 1); if (c->op == O_EQ) edge(j, i, 1); } }
  u8 rel(Expr* a, Expr* b) const { int i = find(a), j = find(b); size_t n = nd.size(); if (i >= 0 && j >= 0) return r[i * n + j];
    if (i >= 0 && b->op == O_CONST) { u8 best = 0; for (size_t k = 0; k < n; k++) if (nd[k]->op == O_CONST && nd[k]->w == b->w && r[i * n + k]) { if (nd[k]->val < b->val) return 2; } return best; }
    if (j >= 0 && a->op == O_CONST) { for (size_t k = 0; k < n; k++) if (nd[k]->op == O_CONST && nd[k]->w == a->w && r[k * n + j] && nd[k]->val > a->val) return 2; }
    return 0; }
  int truth(Expr* c) const { // 1 / 0 when the facts decide the comparison, -1 otherwise
    if (c->op == O_ULT) { if (rel(c->a, c->b) == 2) return 1; if (rel(c->b, c->a)) return 0; return -1; }
    if (c->op == O_ULE) { if (rel(c->a, c->b)) return 1; if (rel(c->b, c->a) == 2) return 0; return -1; }
    if (c->op == O_EQ) { u8 x = rel(c->a, c->b), y = rel(c->b, c->a); if (x == 1 && y == 1) return 1; if (x == 2 || y == 2) return 0; return -1; }
    return -1; }
};
struct State {
  vector<Frame> st; Mem mem; vector<Expr*> pc; /* implied, not sent to the solver: */ vector<Expr*> facts; Order ord; vector<Expr*> oblig; /* what propagation concluded; confirmed by the solver when the path ends */ ModelP model; vector<u32> syms; /* user symbols in order */ u32 nsym = 0, nundef = 0; vector<pair<Expr*, u64>> known;
  vector<Val> outs; vector<Exc> excs; vector<u64> caught; u64 steps = 0; vector<u32> covers; u32 entry = 0; u32 depth = 0; bool init = false; i128 allocBudget = -1; u64 lastRet = 0;
};
struct EntryCfg { string text, name; map<string, long> params; Func* f; };
static vector<EntryCfg> entries; static vector<string> coverNames; static map<string, u32> coverId;
static vector<State*> work; // DFS stack of pending states
static State* cur = nullptr;

struct PathEnd {}; struct Requeue {};

// ------------------------------------------------------------------ solver
static Z3_context zctx; static Z3_solver zs, zi; static Lin L; static vector<Expr*> zstack;
static bool zerr = false; static string zmsg;
static void setModel(const ModelP& m) { X.curModel = &m->v; X.curStamp = m->stamp; }
static u128 evalIn(const ModelP& m, Expr* e) { setModel(m); return X.eval(e); }
static void mkSolver() {
  Z3_config cfg = Z3_mk_config(); zctx = Z3_mk_context_rc(cfg); Z3_del_config(cfg); X.ctx = zctx;
  Z3_set_error_handler(zctx, [](Z3_context c, Z3_error_code e) { zerr = true; zmsg = Z3_get_error_msg(c, e); });
  zs = opt.bvSolver ? Z3_mk_solver_for_logic(zctx, Z3_mk_string_symbol(zctx, "QF_BV")) : Z3_mk_simple_solver(zctx); Z3_solver_inc_ref(zctx, zs); zi = Z3_mk_simple_solver(zctx); Z3_solver_inc_ref(zctx, zi); L.init(zctx, &X);
  Z3_params p = Z3_mk_params(zctx); Z3_params_inc_ref(zctx, p); Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "timeout"), opt.qTimeoutMs); Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "random_seed"), (unsigned)opt.seed); Z3_solver_set_params(zctx, zs, p); Z3_solver_set_params(zctx, zi, p); Z3_params_dec_ref(zctx, p);
}
// Order-only queries (comparisons of symbols and constants under boolean structure) are sent to Z3 as linear
// integer arithmetic with explicit ranges, which is an exact rendering of the bit-vector query.
static vector<Expr*> zistack; static std::unordered_map<Expr*, char> pureMemo; static std::unordered_map<Expr*, Z3_ast> zintMemo, zibMemo; static std::unordered_set<Expr*> ziBounded;
static Z3_sort intSort() { static Z3_sort so = nullptr; if (!so) { so = Z3_mk_int_sort(zctx); Z3_inc_ref(zctx, Z3_sort_to_ast(zctx, so)); } return so; }
static bool pureTerm(Expr* e) { return e->op == O_CONST ? e->w <= 64 : e->op == O_SYM ? true : e->op == O_ZEXT && e->a->op == O_SYM; }
static bool pureOrder(Expr* e) {
  if (e->op == O_CONST) return true; auto it = pureMemo.find(e); if (it != pureMemo.end()) return it->second; bool r = false;
  switch (e->op) { case O_ULT: case O_ULE: r = pureTerm(e->a) && pureTerm(e->b); break; case O_EQ: r = e->a->w == 1 ? pureOrder(e->a) && pureOrder(e->b) : pureTerm(e->a) && pureTerm(e->b); break;
    case O_AND: case O_OR: case O_XOR: r = e->w == 1 && pureOrder(e->a) && pureOrder(e->b); break; case O_NOT: r = e->w == 1 && pureOrder(e->a); break; case O_ITE: r = e->w == 1 && pureOrder(e->a) && pureOrder(e->b) && pureOrder(e->c); break; case O_SYM: r = e->w == 1; break; default: break; }
  pureMemo[e] = r; return r; }
static Z3_ast zkeep(Z3_ast a) { Z3_inc_ref(zctx, a); return a; }
static void ziSyms(Expr* e, vector<Expr*>& out, std::unordered_set<Expr*>& seen) { if (!e || !seen.insert(e).second) return; if (e->op == O_SYM) out.push_back(e); ziSyms(e->a, out, seen); ziSyms(e->b, out, seen); ziSyms(e->c, out, seen); }
static Z3_ast zint(Expr* e) { if (e->op == O_ZEXT) e = e->a; auto it = zintMemo.find(e); if (it != zintMemo.end()) return it->second; Z3_ast r;
  if (e->op == O_CONST) r = zkeep(Z3_mk_unsigned_int64(zctx, (u64)e->val, intSort())); else { string n = "s" + std::to_string(e->aux); r = zkeep(Z3_mk_const(zctx, Z3_mk_string_symbol(zctx, n.c_str()), intSort())); }
  zintMemo[e] = r; return r; }
static Z3_ast zib(Expr* e) { auto it = zibMemo.find(e); if (it != zibMemo.end()) return it->second; Z3_ast r, x[2];
  switch (e->op) { case O_CONST: r = e->val ? Z3_mk_true(zctx) : Z3_mk_false(zctx); break;
    case O_ULT: r = Z3_mk_lt(zctx, zint(e->a), zint(e->b)); break; case O_ULE: r = Z3_mk_le(zctx, zint(e->a), zint(e->b)); break;
    case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(zctx, zib(e->a), zib(e->b)) : Z3_mk_eq(zctx, zint(e->a), zint(e->b)); break;
    case O_AND: x[0] = zib(e->a); x[1] = zib(e->b); r = Z3_mk_and(zctx, 2, x); break; case O_OR: x[0] = zib(e->a); x[1] = zib(e->b); r = Z3_mk_or(zctx, 2, x); break;
    case O_XOR: r = Z3_mk_xor(zctx, zib(e->a), zib(e->b)); break; case O_NOT: r = Z3_mk_not(zctx, zib(e->a)); break; case O_ITE: r = Z3_mk_ite(zctx, zib(e->a), zib(e->b), zib(e->c)); break;
    default: r = Z3_mk_eq(zctx, zint(e), zkeep(Z3_mk_unsigned_int64(zctx, 1, intSort()))); break; }
  return zibMemo[e] = zkeep(r); }
// constraint with the ranges of its symbols
static Z3_ast zibRanged(Expr* e) { vector<Expr*> sy; std::unordered_set<Expr*> seen; ziSyms(e, sy, seen); vector<Z3_ast> v; v.push_back(zib(e)); for (Expr* x : sy) { u128 hi = maskw(x->w); Z3_ast lo0 = zkeep(Z3_mk_unsigned_int64(zctx, 0, intSort())), hi0 = zkeep(Z3_mk_unsigned_int64(zctx, (u64)hi, intSort())); v.push_back(zkeep(Z3_mk_le(zctx, lo0, zint(x)))); v.push_back(zkeep(Z3_mk_le(zctx, zint(x), hi0))); } return zkeep(Z3_mk_and(zctx, v.size(), v.data())); }
static void collectSyms(Expr* e, std::unordered_set<Expr*>& seen, vector<Expr*>& out) { if (!e || !seen.insert(e).second) return; if (e->op == O_SYM) { out.push_back(e); return; } collectSyms(e->a, seen, out); collectSyms(e->b, seen, out); collectSyms(e->c, seen, out); }
static vector<ModelP> recent;
struct Unknown {};
static ModelP readModel(Z3_solver S) { Z3_model zm = Z3_solver_get_model(zctx, S); Z3_model_inc_ref(zctx, zm); auto mm = std::make_shared<Model>(); mm->stamp = nextStamp++; mm->v.assign(X.syms.size(), 0);
  unsigned nc = Z3_model_get_num_consts(zctx, zm);
  for (unsigned i = 0; i < nc; i++) { Z3_func_decl d = Z3_model_get_const_decl(zctx, zm, i); Z3_symbol sy = Z3_get_decl_name(zctx, d); if (Z3_get_symbol_kind(zctx, sy) != Z3_STRING_SYMBOL) continue; const char* s = Z3_get_symbol_string(zctx, sy); if (s[0] != 's' || s[1] < '0' || s[1] > '9') continue; u32 k = atoi(s + 1); if (k >= mm->v.size()) continue; Z3_ast v = Z3_model_get_const_interp(zctx, zm, d); uint64_t u; if (v && Z3_get_numeral_uint64(zctx, v, &u)) mm->v[k] = u; }
  Z3_model_dec_ref(zctx, zm); return mm; }
// auxiliary symbols take the values they stand for
static void repair(const ModelP& mm, const vector<Expr*>& pc, Expr* extra) { std::unordered_set<Expr*> seen; vector<Expr*> sy; for (Expr* e : pc) collectSyms(e, seen, sy); if (extra) collectSyms(extra, seen, sy); vector<u32> d; for (Expr* e : sy) if (X.syms[e->aux].def) d.push_back(e->aux); if (d.empty()) return; std::sort(d.begin(), d.end()); setModel(mm); for (u32 k : d) mm->v[k] = (u64)X.eval(X.syms[k].def); mm->stamp = nextStamp++; }
static bool satisfies(const ModelP& mm, const vector<Expr*>& pc, Expr* extra) { setModel(mm); if (extra && !X.eval(extra)) return false; for (Expr* c : pc) if (!X.eval(c)) return false; return true; }
// a model of the linear rendering may differ from the true semantics in rounding: nearby inputs often do not
static bool nearby(const ModelP& mm, const vector<Expr*>& pc, Expr* extra) { std::unordered_set<Expr*> seen; vector<Expr*> sy; for (Expr* e : pc) collectSyms(e, seen, sy); if (extra) collectSyms(extra, seen, sy); vector<u64> v = mm->v; const vector<Expr*>& q = pc;
  for (Expr* e : sy) { u32 k = e->aux; if (X.syms[k].def || e->w < 8) continue; u64 b = v[k], mk = (u64)maskw(e->w); for (int i = 0; i < 3 * (int)e->w; i++) { u64 d = (u64)1 << (i / 3), c = i % 3 == 0 ? b + d : i % 3 == 1 ? b - d : b & ~(d | (d - 1)); if (c == b) continue; mm->v = v; mm->v[k] = c & mk; mm->stamp = nextStamp++; repair(mm, q, extra); if (satisfies(mm, q, extra)) return true; } }
  mm->v = v; mm->stamp = nextStamp++; return false; }
static bool fpQuery(const vector<Expr*>& pc, Expr* extra) { if (extra && extra->flags & EF_FP) return true; for (Expr* e : pc) if (e->flags & EF_FP) return true; return false; }
// linear rendering: 1 satisfiable (m set), 0 unsatisfiable, -1 not decided
static int checkLin(const vector<Expr*>& pc, Expr* extra, ModelP* m) {
  vector<Z3_ast> ts; try { for (Expr* e : pc) ts.push_back(L.full(e)); if (extra) ts.push_back(L.full(extra)); } catch (NotLinear&) { if (getenv("MSYM_SLOW")) fprintf(stderr, "not linear: %s\n", extra ? Z3_ast_to_string(zctx, X.zbool(extra)) : "path"); return -1; }
  // a fresh solver each time: incremental solving is far slower on these
  std::unordered_set<Z3_ast> once; vector<Z3_ast> all; auto put = [&](Z3_ast a) { if (once.insert(a).second) all.push_back(a); };
  for (Z3_ast t : ts) { if (Z3_is_app(zctx, t) && Z3_get_decl_kind(zctx, Z3_get_app_decl(zctx, Z3_to_app(zctx, t))) == Z3_OP_AND) { Z3_app ap = Z3_to_app(zctx, t); for (unsigned i = 0; i < Z3_get_app_num_args(zctx, ap); i++) put(Z3_get_app_arg(zctx, ap, i)); } else put(t); }
  int res = -1; Z3_lbool r = Z3_L_UNDEF;
  // often the integers alone refute the query
  if (extra && fpQuery(pc, extra)) { std::unordered_set<Z3_ast> o2; vector<Z3_ast> v; bool have = L.abstracted(extra, v); for (size_t i = pc.size(); i-- > 0;) L.abstracted(pc[i], v);
    if (have) { Z3_solver S = Z3_mk_simple_solver(zctx); Z3_solver_inc_ref(zctx, S); Z3_params p = Z3_mk_params(zctx); Z3_params_inc_ref(zctx, p); Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "timeout"), 800); Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "arith.solver"), 2); Z3_solver_set_params(zctx, S, p); Z3_params_dec_ref(zctx, p);
      for (Z3_ast a : v) if (o2.insert(a).second) Z3_solver_assert(zctx, S, a); Z3_lbool q = Z3_solver_check(zctx, S); sh->queries++; if (zerr) { zerr = false; q = Z3_L_UNDEF; } Z3_solver_dec_ref(zctx, S); if (q == Z3_L_FALSE) { sh->qunsat++; sh->linQueries++; return 0; } } }
  // two arithmetic cores in turn, with growing time limits; a model that does not evaluate is replaced by well separated ones
  static const struct { unsigned arith, ms; } plan[] = {{2, 1500}, {6, 3000}, {2, 0}, {6, 0}}; int stage = 0; bool sep = false;
  for (int k = 0; k < 6 && res < 0 && stage < 4; k++) {
    Z3_solver S = Z3_mk_simple_solver(zctx); Z3_solver_inc_ref(zctx, S); Z3_params p = Z3_mk_params(zctx); Z3_params_inc_ref(zctx, p);
    Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "timeout"), plan[stage].ms && plan[stage].ms < opt.qTimeoutMs ? plan[stage].ms : opt.qTimeoutMs); Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "random_seed"), (unsigned)opt.seed + k); Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "arith.solver"), plan[stage].arith); Z3_solver_set_params(zctx, S, p); Z3_params_dec_ref(zctx, p);
    for (Z3_ast a : all) Z3_solver_assert(zctx, S, a); if (sep) for (Z3_ast a : L.separated(pc, extra)) Z3_solver_assert(zctx, S, a);
    r = Z3_solver_check(zctx, S); sh->queries++; if (!k) sh->linQueries++; if (zerr) { zerr = false; r = Z3_L_UNDEF; }
    if (r == Z3_L_FALSE && !sep) { sh->qunsat++; res = 0; }
    if (r == Z3_L_TRUE) { ModelP mm = readModel(S); repair(mm, pc, extra); if (satisfies(mm, pc, extra) || nearby(mm, pc, extra)) { sh->qsat++; res = 1; if (m) *m = mm; recent.push_back(mm); if (recent.size() > 64) recent.erase(recent.begin(), recent.begin() + 32); } }
    if (r == Z3_L_TRUE) sep = true; else stage++;
    if (res < 0 && getenv("MSYM_SLOW")) { static int nn = 0; string fn = "/tmp/slow-lin-" + std::to_string(getpid()) + "-" + std::to_string(nn++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); fprintf(f, ";; lin attempt %d result %d\n%s\n(check-sat)\n", k, (int)r, Z3_solver_to_string(zctx, S)); fclose(f); }
    Z3_solver_dec_ref(zctx, S); }
  return res; }
// is pc /\ extra satisfiable? fills m with a model
static bool checkSat(const vector<Expr*>& pc, Expr* extra, ModelP* m) {
  if (extra && extra->op == O_CONST && !extra->val) return false;
  // cheap: a recently found model may already satisfy everything
  for (size_t k = recent.size(); k-- > 0 && k + 6 > recent.size();) { setModel(recent[k]); bool ok = !extra || X.eval(extra); for (size_t i = pc.size(); ok && i-- > 0;) if (!X.eval(pc[i])) ok = false; if (ok) { sh->quickHits++; if (m) *m = recent[k]; return true; } }
  bool fp = opt.lin || (extra && extra->flags & EF_FP); for (size_t i = 0; !fp && i < pc.size(); i++) fp = pc[i]->flags & EF_FP;
  if (fp && opt.useLin) { double t = now(); int k = checkLin(pc, extra, m); sh->solverUs += (u64)((now() - t) * 1e6); if (k >= 0) return k; }
  bool pure = opt.intOrder && (!extra || pureOrder(extra)); if (pure) for (size_t i = pc.size(); i-- > 0;) if (!pureOrder(pc[i])) { pure = false; break; }
  Z3_solver S = pure ? zi : zs; vector<Expr*>& stk = pure ? zistack : zstack;
  double t0 = now(); Z3_lbool r;
  size_t n = 0; while (n < stk.size() && n < pc.size() && stk[n] == pc[n]) n++;
  if (stk.size() > n) { Z3_solver_pop(zctx, S, stk.size() - n); stk.resize(n); }
  for (size_t i = n; i < pc.size(); i++) { Z3_ast a = pure ? zibRanged(pc[i]) : X.zbool(pc[i]); Z3_solver_push(zctx, S); Z3_solver_assert(zctx, S, a); stk.push_back(pc[i]); }
  if (extra) { Z3_ast a = pure ? zibRanged(extra) : X.zbool(extra); Z3_solver_push(zctx, S); Z3_solver_assert(zctx, S, a); }
  r = Z3_solver_check(zctx, S); if (pure) sh->intQueries++;
  sh->queries++;
  bool ok = false;
  if (zerr) r = Z3_L_UNDEF;
  if (r == Z3_L_TRUE) {
    sh->qsat++; ok = true;
    if (m) { Z3_model zm = Z3_solver_get_model(zctx, S); Z3_model_inc_ref(zctx, zm); auto mm = std::make_shared<Model>(); mm->stamp = nextStamp++; mm->v.assign(X.syms.size(), 0);
      unsigned nc = Z3_model_get_num_consts(zctx, zm);
      for (unsigned i = 0; i < nc; i++) { Z3_func_decl d = Z3_model_get_const_decl(zctx, zm, i); Z3_symbol sy = Z3_get_decl_name(zctx, d); if (Z3_get_symbol_kind(zctx, sy) != Z3_STRING_SYMBOL) continue; const char* s = Z3_get_symbol_string(zctx, sy); if (s[0] != 's' || s[1] < '0' || s[1] > '9') continue; u32 k = atoi(s + 1); if (k >= mm->v.size()) continue; Z3_ast v = Z3_model_get_const_interp(zctx, zm, d); uint64_t u; if (v && Z3_get_numeral_uint64(zctx, v, &u)) mm->v[k] = u; }
      Z3_model_dec_ref(zctx, zm);
      // trust but check: the model must satisfy the query under our own semantics
      setModel(mm); bool good = !extra || X.eval(extra); for (Expr* c : pc) if (good && !X.eval(c)) good = false;
      if (!good) { ok = false; r = Z3_L_UNDEF; zmsg = "model does not evaluate"; } else { *m = mm; recent.push_back(mm); if (recent.size() > 64) recent.erase(recent.begin(), recent.begin() + 32); } }
  } else if (r == Z3_L_FALSE) sh->qunsat++;
  if (extra) Z3_solver_pop(zctx, S, 1);
  sh->solverUs += (u64)((now() - t0) * 1e6);
  if (getenv("MSYM_SLOW") && now() - t0 > atof(getenv("MSYM_SLOW"))) { static int nn = 0; string fn = "/tmp/slow-" + std::to_string(getpid()) + "-" + std::to_string(nn++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); for (Expr* c : pc) fprintf(f, ";; %s\n", Z3_ast_to_string(zctx, X.zbool(c))); if (extra) fprintf(f, ";; EXTRA %s\n", Z3_ast_to_string(zctx, X.zbool(extra))); fprintf(f, ";; took %.2f result %d\n%s\n(check-sat)\n", now() - t0, (int)r, Z3_solver_to_string(zctx, S)); fclose(f); }
  if (r == Z3_L_UNDEF) { sh->qunknown++; zerr = false; throw Unknown(); }
  return ok;
}

// ------------------------------------------------------------------ reporting
static string locOf(llvm::Instruction* I) { if (!I) return ""; const llvm::DebugLoc& d = I->getDebugLoc(); if (!d) return ""; auto* s = llvm::dyn_cast_or_null<llvm::DIScope>(d.getScope()); string f = s ? s->getFilename().str() : ""; return f + ":" + std::to_string(d.getLine()); }
static string shortName(Func* f) { string n = llvm::demangle(f->name); if (n.size() > 160) n = n.substr(0, 157) + "..."; return n; }
static string stackOf(State& s) { string r = "["; bool first = true; int n = 0; for (size_t i = s.st.size(); i-- > 0 && n < 24; n++) { Frame& f = s.st[i]; string l; if (f.bb >= 0 && f.ip >= 0 && f.bb < (int)f.f->bbs.size() && f.ip < (int)f.f->bbs[f.bb].ins.size()) l = locOf(f.f->bbs[f.bb].ins[f.ip].I); if (!first) r += ","; first = false; r += jesc(shortName(f.f) + " @ " + l); } return r + "]"; }
static string valuesJson(State& s, const ModelP& m) { string r = "["; bool first = true; for (u32 k : s.syms) { u64 v = k < m->v.size() ? m->v[k] : 0; v &= m64(X.syms[k].w); if (!first) r += ","; first = false; r += "[" + jesc(X.syms[k].name) + ",\"" + std::to_string(v) + "\"]"; } return r + "]"; }
static string outsJson(State& s, const ModelP& m) { string r = "["; bool first = true; for (auto& o : s.outs) { u64 v = o.e ? (u64)evalIn(m, o.e) : o.c; if (!first) r += ","; first = false; r += "\"" + std::to_string(v) + "\""; } return r + "]"; }
static string innerRepoLoc(State& s) { for (size_t i = s.st.size(); i-- > 0;) { Frame& f = s.st[i]; if (!f.f->repo) continue; if (f.bb >= 0 && f.ip < (int)f.f->bbs[f.bb].ins.size()) return shortName(f.f) + " @ " + locOf(f.f->bbs[f.bb].ins[f.ip].I); } return ""; }
static std::set<string> reported;
static void violation(State& s, const string& kind, const string& msg, const ModelP& m) {
  string where = innerRepoLoc(s); string key = entries[s.entry].text + "|" + kind + "|" + msg + "|" + where;
  bool fresh = reported.insert(key).second;
  u64 n = sh->viol++;
  if (fresh && n < 400) outLine("{\"t\":\"violation\",\"entry\":" + jesc(entries[s.entry].text) + ",\"kind\":" + jesc(kind) + ",\"msg\":" + jesc(msg) + ",\"where\":" + jesc(where) + ",\"values\":" + valuesJson(s, m) + ",\"outs\":" + outsJson(s, m) + ",\"stack\":" + stackOf(s) + "}");
  if (n + 1 >= opt.maxViol) { int z = 0; sh->stop.compare_exchange_strong(z, 2); }
}
[[noreturn]] static void fail(State& s, const string& kind, const string& msg) { violation(s, kind, msg, s.model); throw PathEnd(); }
[[noreturn]] static void unsupported(State& s, const string& msg) { sh->unsupported++; if (reported.insert("U|" + msg).second) outLine("{\"t\":\"unsupported\",\"entry\":" + jesc(entries[s.entry].text) + ",\"msg\":" + jesc(msg) + ",\"stack\":" + stackOf(s) + "}"); throw PathEnd(); }

// ------------------------------------------------------------------ constraints and forking
static void addPc(State& s, Expr* c) { if (c->op == O_CONST) return; if (c->op == O_AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; } if (c->op == O_NOT && c->a->op == O_OR && c->w == 1) { addPc(s, X.mkNot(c->a->a)); addPc(s, X.mkNot(c->a->b)); return; } for (Expr* p : s.pc) if (p == c) return; s.pc.push_back(c); if (opt.closure) s.ord.add(c); }
static void addFact(State& s, Expr* c) { if (c->op == O_CONST) return; s.facts.push_back(c); if (opt.closure) { if (c->op == O_AND) { addFact(s, c->a); addFact(s, c->b); } else s.ord.add(c); } }
// copies everything but shares memory copy-on-write
static State* cloneState(State& s) { State* n = new State(s); n->depth = s.depth + 1; sh->forks++; return n; }

static Expr* substUndef(Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
  if (!(e->flags & EF_UNDEF)) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; Expr* r;
  if (e->op == O_SYM) { r = X.sym(X.syms[e->aux].idx, "u'", e->w, true); }
  else { Expr *a = e->a ? substUndef(e->a, memo) : 0, *b = e->b ? substUndef(e->b, memo) : 0, *c = e->c ? substUndef(e->c, memo) : 0; 
    switch (e->op) { case O_ITE: r = X.ite(a, b, c); break; case O_ZEXT: r = X.zext(a, e->w); break; case O_SEXT: r = X.sext(a, e->w); break; case O_EXTRACT: r = X.extract(a, e->aux, e->w); break; case O_CONCAT: r = X.concat(a, b); break; case O_NOT: r = X.mkNot(a); break;
      default: if (e->op >= O_FADD) r = X.fop(e->op, e->w, a, b); else r = X.bin(e->op, a, b); } }
  memo[e] = r; return r;
}
static void checkUndef(State& s, Expr* e, const char* what) {
  if (!(e->flags & EF_UNDEF) || !opt.checkUndef) return;
  std::unordered_map<Expr*, Expr*> memo; Expr* f = substUndef(e, memo);
  ModelP m; if (checkSat(s.pc, X.mkNot(X.bin(O_EQ, e, f)), &m)) { violation(s, "uninitialised", string("use of uninitialised value in ") + what, m); throw PathEnd(); }
}

// truth of c on this path; forks when both outcomes are possible (the other one re-executes from `redo`)
static int atomTruth(State& s, Expr* c, Expr* nc) { for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) return 1; if (s.pc[i] == nc) return 0; } for (size_t i = s.facts.size(); i-- > 0;) { if (s.facts[i] == c) return 1; if (s.facts[i] == nc) return 0; } return opt.closure ? s.ord.truth(c) : -1; }
// rewrites a boolean term under the facts of the path
static Expr* reduceB(State& s, Expr* c, std::unordered_map<Expr*, Expr*>& memo) {
  if (c->w != 1 || c->op == O_CONST) return c; auto it = memo.find(c); if (it != memo.end()) return it->second; Expr* r = c;
  int k = atomTruth(s, c, X.mkNot(c));
  if (k >= 0) r = X.con(k, 1);
  else switch (c->op) {
  case O_AND: { Expr* a = reduceB(s, c->a, memo); r = X.isC(a, 0) ? a : X.bin(O_AND, a, reduceB(s, c->b, memo)); break; }
  case O_OR: { Expr* a = reduceB(s, c->a, memo); r = X.isC(a, 1) ? a : X.bin(O_OR, a, reduceB(s, c->b, memo)); break; }
  case O_XOR: r = X.bin(O_XOR, reduceB(s, c->a, memo), reduceB(s, c->b, memo)); break;
  case O_EQ: if (c->a->w == 1) r = X.bin(O_EQ, reduceB(s, c->a, memo), reduceB(s, c->b, memo)); break;
  case O_NOT: r = X.mkNot(reduceB(s, c->a, memo)); break;
  case O_ITE: { Expr* a = reduceB(s, c->a, memo); r = X.isC(a) ? reduceB(s, a->val ? c->b : c->c, memo) : X.ite(a, reduceB(s, c->b, memo), reduceB(s, c->c, memo)); break; }
  default: break; }
  memo[c] = r; return r; }
static Expr* reduce(State& s, Expr* c) { if (c->op == O_CONST) return c; std::unordered_map<Expr*, Expr*> memo; Expr* r = reduceB(s, c, memo); if (r->op == O_CONST && !s.pc.empty()) sh->closureHits++;
  if (opt.audit && r != c) { ModelP m; Expr* d = X.mkNot(X.bin(O_EQ, r, c)); if (d->op != O_CONST && checkSat(s.pc, d, &m)) { fprintf(stderr, "AUDIT: reduction is wrong\n"); abort(); } }
  return r; }
static string exprStr(Expr* e) { static const char* nm[] = {"c","s","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>","a>>","==","<u","<=u","<s","<=s","ite","zext","sext","ext","cat","!"}; if (e->op == O_CONST) return std::to_string((long long)e->val); if (e->op == O_SYM) return X.syms[e->aux].name + std::to_string(X.syms[e->aux].idx); string r = string("(") + (e->op <= O_NOT ? nm[e->op] : "fp"); for (Expr* x : {e->a, e->b, e->c}) if (x) r += " " + exprStr(x); return r + ")"; }
static void oblige(State& s, Expr* c) { for (Expr* o : s.oblig) if (o == c) return; s.oblig.push_back(c); }
static void checkObligations(State& s) { if (s.oblig.empty()) return; Expr* all = X.con(1, 1); for (Expr* o : s.oblig) all = X.bin(O_AND, all, o); s.oblig.clear(); if (all->op == O_CONST && all->val) return; ModelP m; sh->obligQueries++; if (checkSat(s.pc, X.mkNot(all), &m)) { outLine("{\"t\":\"unsupported\",\"entry\":" + jesc(entries[s.entry].text) + ",\"msg\":\"propagation contradicts the solver\"}"); sh->unsupported++; } }
static int exactTruth(State& s, Expr* c) { if (c->op == O_CONST) return c->val ? 1 : 0; Expr* nc = X.mkNot(c); for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) return 1; if (s.pc[i] == nc) return 0; } for (size_t i = s.facts.size(); i-- > 0;) { if (s.facts[i] == c) return 1; if (s.facts[i] == nc) return 0; } return -1; }
static int knownTruth(State& s, Expr* c) { if (c->op == O_CONST) return c->val ? 1 : 0; return atomTruth(s, c, X.mkNot(c)); }
// Decides a symbolic condition at the current instruction: returns the side taken by *cur*; the other
// feasible side is queued with the constraint added so that re-executing the instruction decides it.
static bool decide(State& s, Expr* c) {
  int k = exactTruth(s, c); if (k >= 0) return k; { Expr* q = reduce(s, c); if (q->op == O_CONST) { oblige(s, q->val ? c : X.mkNot(c)); return q->val != 0; } c = q; }
  checkUndef(s, c, "a branch condition");
  bool side = evalIn(s.model, c) != 0; Expr* mine = side ? c : X.mkNot(c); Expr* other = side ? X.mkNot(c) : c;
  ModelP m; 
  if (checkSat(s.pc, other, &m)) { State* o = cloneState(s); addPc(*o, other); o->model = m; work.push_back(o); addPc(s, mine); }
  else { /* implied; remember it so that it is not asked again */ addFact(s, mine); }
  return side;
}
// A concrete value for e on this path; other feasible values are queued.
static u64 concretize(State& s, Expr* e, const char* what) {
  if (e->op == O_CONST) return (u64)e->val;
  for (size_t i = s.known.size(); i-- > 0;) if (s.known[i].first == e) return s.known[i].second;
  checkUndef(s, e, what);
  u64 v = (u64)evalIn(s.model, e); Expr* eq = X.bin(O_EQ, e, X.con(v, e->w)); int k = exactTruth(s, eq);
  if (k != 1) { Expr* ne = X.mkNot(eq); ModelP m; if (checkSat(s.pc, ne, &m)) { State* o = cloneState(s); addPc(*o, ne); o->model = m; work.push_back(o); addPc(s, eq); } else addFact(s, eq); }
  s.known.push_back({e, v}); return v;
}
static u64 conc(State& s, Val& v, const char* what) { if (!v.e) return v.c; if (v.e == AGG) unsupported(s, "aggregate used as scalar"); u64 x = concretize(s, v.e, what); v = VC(x); return x; }

// ------------------------------------------------------------------ memory access
static string ptrDesc(State& s, u64 a) { u64 id = a >> OBJ_SHIFT; Obj* o = s.mem.get(id); char b[160]; if (o) snprintf(b, 160, "%s object of %llu bytes%s, offset %lld", kindName[o->kind], (unsigned long long)o->size, o->freed ? " (freed)" : "", (long long)(a - addrOf(id))); else snprintf(b, 160, "address 0x%llx", (unsigned long long)a); return b; }
static Obj* access(State& s, u64 a, u64 n, bool wr, u64& off, u64& id) {
  id = a >> OBJ_SHIFT; Obj* o = s.mem.get(id); const char* rw = wr ? "write" : "read";
  if (!o) { if (a < 4096) fail(s, "null-deref", string("null pointer ") + rw); if (a >= FN_BASE) fail(s, "bad-address", string(rw) + " at a function address"); if (id && id < s.mem.nextId) fail(s, "use-after-scope", string(rw) + " of a dead stack object"); fail(s, "bad-address", string(rw) + " at wild address"); }
  off = a - addrOf(id);
  if (o->freed) fail(s, "use-after-free", string(rw) + " after free");
  if (off > o->size || n > o->size - off) fail(s, "out-of-bounds", string("out-of-bounds ") + rw + " of " + std::to_string(n) + " bytes: " + ptrDesc(s, a));
  if (wr && o->kind == K_CONST) fail(s, "const-write", "write to constant memory");
  return o;
}
static Expr* byteE(State& s, Obj*& o, u64 id, u64 i) {
  if (o->st[i] == 0) return X.con(o->d[i], 8);
  if (o->st[i] == 1) { o = s.mem.wget(id); if (o->sy.empty()) o->sy.resize(o->size); Expr* u = X.sym(s.nundef++, "u", 8, true); o->sy[i] = {u, 0}; o->st[i] = 2; return u; }
  return X.extract(o->sy[i].e, o->sy[i].idx * 8, 8);
}
static Val loadObj(State& s, Obj* o, u64 id, u64 off, unsigned n, unsigned w) {
  bool conc = true; const u8* st = &o->st[off]; for (unsigned i = 0; i < n; i++) if (st[i]) { conc = false; break; }
  if (conc) { if (n <= 8) { u64 v = 0; memcpy(&v, &o->d[off], n); return VC(v & m64(w)); } u128 v = 0; memcpy(&v, &o->d[off], n); return Val{0, X.con(v, w)}; }
  if (st[0] == 2) { SymByte b = o->sy[off]; if (b.idx == 0 && b.e->w == n * 8) { bool ok = true; for (unsigned i = 1; i < n; i++) if (st[i] != 2 || o->sy[off + i].e != b.e || o->sy[off + i].idx != i) { ok = false; break; } if (ok) return VE(X.extract(b.e, 0, w)); } }
  Expr* r = nullptr; for (unsigned i = 0; i < n; i++) { Expr* b = byteE(s, o, id, off + i); r = r ? X.concat(b, r) : b; }
  return VE(X.extract(r, 0, w));
}
static void storeObj(Obj* o, u64 off, Val v, unsigned n, unsigned w) {
  if (!v.e) { u64 x = v.c & m64(w); u8 b[16] = {}; memcpy(b, &x, 8); memcpy(&o->d[off], b, n); memset(&o->st[off], 0, n); return; }
  if (v.e->op == O_CONST) { u128 x = v.e->val; memcpy(&o->d[off], &x, n); memset(&o->st[off], 0, n); return; }
  Expr* e = X.zext(v.e, n * 8); if (o->sy.empty()) o->sy.resize(o->size);
  for (unsigned i = 0; i < n; i++) { o->sy[off + i] = {e, (u8)i}; o->st[off + i] = 2; }
}
static Val loadTy(State& s, u64 a, llvm::Type* t);
static unsigned widthOf(llvm::Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isVoidTy()) return 0; return 0xFFFF; }
static Val loadTy(State& s, u64 a, llvm::Type* t) {
  if (t->isStructTy()) { auto* S = llvm::cast<llvm::StructType>(t); auto* L = DL->getStructLayout(S); vector<Val> v; for (unsigned i = 0; i < S->getNumElements(); i++) v.push_back(loadTy(s, a + L->getElementOffset(i), S->getElementType(i))); return mkAgg(v); }
  if (t->isArrayTy()) { vector<Val> v; u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) v.push_back(loadTy(s, a + i * es, t->getArrayElementType())); return mkAgg(v); }
  unsigned w = widthOf(t); if (w == 0xFFFF || w > 128) unsupported(s, "load of unsupported type");
  unsigned n = DL->getTypeStoreSize(t); u64 off, id; Obj* o = access(s, a, n, false, off, id); return loadObj(s, o, id, off, n, w);
}
static void storeTy(State& s, u64 a, Val v, llvm::Type* t) {
  if (t->isStructTy()) { auto* S = llvm::cast<llvm::StructType>(t); auto* L = DL->getStructLayout(S); AggV* g = (AggV*)v.c; for (unsigned i = 0; i < S->getNumElements(); i++) storeTy(s, a + L->getElementOffset(i), g->v[i], S->getElementType(i)); return; }
  if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); AggV* g = (AggV*)v.c; for (u64 i = 0; i < t->getArrayNumElements(); i++) storeTy(s, a + i * es, g->v[i], t->getArrayElementType()); return; }
  unsigned w = widthOf(t); if (w == 0xFFFF || w > 128) unsupported(s, "store of unsupported type");
  unsigned n = DL->getTypeStoreSize(t); u64 off, id; access(s, a, n, true, off, id); storeObj(s.mem.wget(id), off, v, n, w);
}
static void copyMem(State& s, u64 d, u64 sr, u64 n) {
  if (!n) return; u64 so, si, dof, di; Obj* o = access(s, sr, n, false, so, si); access(s, d, n, true, dof, di);
  vector<u8> bd(o->d.begin() + so, o->d.begin() + so + n), bs(o->st.begin() + so, o->st.begin() + so + n); vector<SymByte> by; bool anyS = false; for (u8 x : bs) if (x == 2) anyS = true; if (anyS) by.assign(o->sy.begin() + so, o->sy.begin() + so + n);
  Obj* w = s.mem.wget(di); memcpy(&w->d[dof], bd.data(), n); memcpy(&w->st[dof], bs.data(), n); if (anyS) { if (w->sy.empty()) w->sy.resize(w->size); for (u64 i = 0; i < n; i++) w->sy[dof + i] = by[i]; }
}
static u64 allocObj(State& s, u64 n, ObjKind k, bool undef = true) { if (n > (1u << 26)) unsupported(s, "allocation of " + std::to_string(n) + " bytes"); return addrOf(s.mem.add(new Obj(n, k, undef))); }
static void freeObj(State& s, u64 a, ObjKind k) {
  if (!a) return; u64 id = a >> OBJ_SHIFT; Obj* o = s.mem.get(id);
  if (!o || a != addrOf(id)) fail(s, "invalid-free", "free of a pointer that was not allocated");
  if (o->freed) fail(s, "double-free", "double free");
  if (o->kind != k) fail(s, "alloc-dealloc-mismatch", string("allocated with ") + kindName[o->kind] + ", released as " + kindName[k]);
  Obj* w = s.mem.wget(id); w->freed = true; w->d.clear(); w->st.clear(); w->sy.clear(); w->d.shrink_to_fit(); w->st.shrink_to_fit(); w->sy.shrink_to_fit();
}
static string readStr(State& s, u64 a) { string r; for (int i = 0; i < 300; i++) { u64 off, id; Obj* o = access(s, a + i, 1, false, off, id); if (o->st[off]) return r + "?"; char c = o->d[off]; if (!c) break; r += c; } return r; }

// ------------------------------------------------------------------ constants
static u64 constU64(const llvm::Constant* C);
static Val constVal(const llvm::Constant* C) {
  using namespace llvm;
  if (auto* i = dyn_cast<ConstantInt>(C)) { if (i->getBitWidth() <= 64) return VC(i->getZExtValue()); u128 v = i->getValue().getRawData()[0]; if (i->getValue().getNumWords() > 1) v |= (u128)i->getValue().getRawData()[1] << 64; return Val{0, X.con(v, i->getBitWidth())}; }
  if (auto* f = dyn_cast<ConstantFP>(C)) return VC(f->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(C)) return VC(0);
  Type* t = C->getType();
  if (t->isStructTy() || t->isArrayTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); vector<Val> v; for (unsigned i = 0; i < n; i++) v.push_back(constVal(C->getAggregateElement(i))); return mkAgg(v); }
  if (isa<UndefValue>(C)) { unsigned w = widthOf(t); if (w == 0xFFFF || w == 0) return VC(0); static u32 k = 1000000; return Val{0, X.sym(k++, "undef", w, true)}; }
  if (isa<ConstantAggregateZero>(C)) return VC(0);
  return VC(constU64(C));
}
static std::set<string> badConst;
static u64 constU64(const llvm::Constant* C) {
  using namespace llvm;
  if (auto* g = dyn_cast<GlobalVariable>(C)) return globAddr[g];
  if (auto* f = dyn_cast<Function>(C)) return funcOf[f]->addr;
  if (auto* a = dyn_cast<GlobalAlias>(C)) return constU64(a->getAliasee());
  if (auto* i = dyn_cast<ConstantInt>(C)) return i->getZExtValue();
  if (isa<ConstantPointerNull>(C)) return 0;
  if (auto* e = dyn_cast<ConstantExpr>(C)) {
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(e); APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) return constU64(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); break; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { u64 v = constU64(e->getOperand(0)); return v & m64(widthOf(e->getType())); }
    case Instruction::Trunc: return constU64(e->getOperand(0)) & m64(widthOf(e->getType()));
    case Instruction::Add: return (constU64(e->getOperand(0)) + constU64(e->getOperand(1))) & m64(widthOf(e->getType()));
    case Instruction::Sub: return (constU64(e->getOperand(0)) - constU64(e->getOperand(1))) & m64(widthOf(e->getType()));
    case Instruction::ICmp: { auto p = e->getPredicate(); u64 a = constU64(e->getOperand(0)), b = constU64(e->getOperand(1)); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; break; }
    default: break; }
  }
  string s; raw_string_ostream os(s); C->print(os); badConst.insert(s.substr(0, 200)); return 0;
}
static void initBytes(State& s, u64 a, const llvm::Constant* C) {
  using namespace llvm; Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* d = dyn_cast<ConstantDataSequential>(C)) { u64 es = d->getElementByteSize(); u64 id = a >> OBJ_SHIFT; Obj* o = s.mem.wget(id); u64 off = a - addrOf(id); StringRef raw = d->getRawDataValues(); (void)es; memcpy(&o->d[off], raw.data(), raw.size()); return; }
  if (t->isStructTy()) { auto* L = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) initBytes(s, a + L->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) initBytes(s, a + i * es, C->getAggregateElement(i)); return; }
  unsigned w = widthOf(t); if (w == 0xFFFF) return; unsigned n = DL->getTypeStoreSize(t); u64 id = a >> OBJ_SHIFT; storeObj(s.mem.wget(id), a - addrOf(id), constVal(C), n, w);
}

// ------------------------------------------------------------------ builtins
static Func* findFunc(const char* n);
enum Builtin { B_NONE = 0, B_UNSUP, B_IGNORE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_NEW, B_NEWARR, B_MALLOC, B_CALLOC, B_REALLOC, B_DEL, B_DELARR, B_FREE,
  B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GETPTR, B_TERMINATE, B_ABORT, B_ASSERTFAIL, B_TYPEIDFOR, B_ATEXIT, B_GUARD_ACQ, B_PUREVIRT,
  B_VS_SYM, B_VS_ASSUME, B_VS_ASSERT, B_VS_OUT, B_VS_COVER, B_VS_PARAM, B_VS_CONC, B_VS_ENGINE, B_VS_FAILALLOC, B_VS_LIVE, B_VS_LIVEB, B_VS_END, B_VS_ISSYM, B_VS_SAME, B_VS_AUX, B_VASTART,
  B_CTLZ, B_CTTZ, B_CTPOP, B_UADDO, B_SADDO, B_USUBO, B_SSUBO, B_UMULO, B_SMULO, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_FABS, B_FLOOR, B_CEIL, B_ROUND, B_TRUNC, B_SQRT, B_FMA, B_EXPECT, B_FSHL, B_FSHR, B_BSWAP, B_UADDSAT, B_USUBSAT, B_OBJSIZE, B_ISCONST, B_TRAP, B_ASSUME, B_STRLEN, B_PTRMASK, B_STACKSAVE, B_POW, B_LOG, B_NEWNT, B_NEWNTA, B_DYNCAST, B_UNCAUGHT };
static map<string, int> builtinNames = {
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
  {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEWNT}, {"_ZnamRKSt9nothrow_t", B_NEWNTA}, {"_ZdaPvRKSt9nothrow_t", B_DELARR}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdlPvRKSt9nothrow_t", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"free", B_FREE},
  {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_get_exception_ptr", B_CXA_GETPTR},
  {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE}, {"__cxa_call_unexpected", B_TERMINATE}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"__cxa_atexit", B_ATEXIT}, {"atexit", B_ATEXIT}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_IGNORE}, {"__cxa_guard_abort", B_IGNORE}, {"__cxa_pure_virtual", B_PUREVIRT}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"__dynamic_cast", B_DYNCAST},
  {"vs_sym", B_VS_SYM}, {"vs_assume", B_VS_ASSUME}, {"vs_assert", B_VS_ASSERT}, {"vs_out", B_VS_OUT}, {"vs_cover", B_VS_COVER}, {"vs_param", B_VS_PARAM}, {"vs_concretize", B_VS_CONC}, {"vs_in_engine", B_VS_ENGINE}, {"vs_fail_alloc", B_VS_FAILALLOC}, {"vs_live_heap", B_VS_LIVE}, {"vs_live_bytes", B_VS_LIVEB}, {"vs_end_path", B_VS_END}, {"vs_is_symbolic", B_VS_ISSYM}, {"vs_same", B_VS_SAME}, {"vs_aux", B_VS_AUX},
  {"strlen", B_STRLEN}, {"pow", B_POW}, {"log", B_LOG}, {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"round", B_ROUND}, {"trunc", B_TRUNC}, {"sqrt", B_SQRT}, {"__dynamic_cast", B_DYNCAST}};
static int intrinsicOf(llvm::Function* F) {
  using namespace llvm;
  switch (F->getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memset: return B_MEMSET;
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return B_IGNORE;
  case Intrinsic::assume: return B_ASSUME; case Intrinsic::eh_typeid_for: return B_TYPEIDFOR; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::ctpop: return B_CTPOP;
  case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::sadd_with_overflow: return B_SADDO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::umul_with_overflow: return B_UMULO; case Intrinsic::smul_with_overflow: return B_SMULO;
  case Intrinsic::umax: return B_UMAX; case Intrinsic::umin: return B_UMIN; case Intrinsic::smax: return B_SMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::abs: return B_ABS; case Intrinsic::fabs: return B_FABS; case Intrinsic::floor: return B_FLOOR; case Intrinsic::ceil: return B_CEIL; case Intrinsic::round: return B_ROUND; case Intrinsic::trunc: return B_TRUNC; case Intrinsic::sqrt: return B_SQRT; case Intrinsic::fmuladd: case Intrinsic::fma: return B_FMA; case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return B_EXPECT; case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR; case Intrinsic::bswap: return B_BSWAP; case Intrinsic::uadd_sat: return B_UADDSAT; case Intrinsic::usub_sat: return B_USUBSAT; case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::is_constant: return B_ISCONST; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return B_TRAP; case Intrinsic::ptrmask: return B_PTRMASK; case Intrinsic::stacksave: return B_STACKSAVE; case Intrinsic::vastart: return B_VASTART; case Intrinsic::vaend: return B_IGNORE; case Intrinsic::pow: return B_POW; case Intrinsic::log: return B_LOG;
  default: return B_UNSUP; }
}

// ------------------------------------------------------------------ decoding
static void decode(Func* f) {
  using namespace llvm; f->decoded = true; Function* F = f->F; std::unordered_map<const Value*, int> reg; int n = 0; for (auto& a : F->args()) reg[&a] = n++;
  std::unordered_map<const BasicBlock*, int> bbi; int b = 0; for (auto& B : *F) { bbi[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  f->nregs = n; f->bbs.resize(b); b = 0;
  auto opnd = [&](Value* v) { Opnd o; o.w = widthOf(v->getType()); if (auto* C = dyn_cast<Constant>(v)) o.k = constVal(C); else { auto it = reg.find(v); if (it != reg.end()) o.reg = it->second; else o.k = VC(0); } return o; };
  u32 ci = f->covBase;
  for (auto& B : *F) {
    DBlock& db = f->bbs[b++]; db.B = &B; db.covIdx = ci++;
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) { DPhi p; p.dst = reg[&I]; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) p.in.push_back({bbi[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))}); db.phis.push_back(p); continue; }
      if (auto* C = dyn_cast<CallBase>(&I)) if (Function* T = C->getCalledFunction()) { auto id = T->getIntrinsicID(); if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::dbg_assign || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) { if (!isa<InvokeInst>(C)) continue; } }
      db.ins.emplace_back(); DInst& d = db.ins.back(); d.opc = I.getOpcode(); d.I = &I; if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) d.nsw = ob->hasNoSignedWrap(); d.w = widthOf(I.getType()); if (!I.getType()->isVoidTy()) d.dst = reg[&I];
      d.ty = I.getType();
      if (auto* C = dyn_cast<CallBase>(&I)) {
        for (auto& a : C->args()) { d.ops.push_back(a->getType()->isMetadataTy() ? Opnd() : opnd(a)); unsigned k = d.ops.size() - 1; d.byval.push_back(C->isByValArgument(k) ? (u64)DL->getTypeAllocSize(C->getParamByValType(k)) : 0); }
        Value* cv = C->getCalledOperand()->stripPointerCasts(); if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto* T = dyn_cast<Function>(cv)) { d.callee = funcOf[T];
          // std::to_string and std::to_chars, base 10: the runtime's rendering, so that digits stay linear
          if (d.callee->name.compare(0, 18, "_ZNSt8__detail14__") == 0 || d.callee->name.compare(0, 18, "_ZNSt8__detail18__") == 0) for (char k : {'j', 'm', 'y'}) for (int w = 0; w < 2; w++) if (d.callee->name == (w ? string("_ZNSt8__detail18__to_chars_10_implI") + k + "EEvPcjT_" : string("_ZNSt8__detail14__to_chars_lenI") + k + "EEjT_i")) if (Func* R = findFunc((string(w ? "vsrt_put_" : "vsrt_len_") + k).c_str())) d.callee = R; d.builtin = d.callee->builtin; }
        else { if (C->isInlineAsm()) d.builtin = B_IGNORE; d.ops.push_back(opnd(C->getCalledOperand())); d.byval.push_back(0); d.off = 1; /* indirect: last operand is the target */ }
        if (auto* V = dyn_cast<InvokeInst>(&I)) { d.bb0 = bbi[V->getNormalDest()]; d.bb1 = bbi[V->getUnwindDest()]; }
        continue;
      }
      if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(opnd(G->getPointerOperand())); int64_t off = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value* ix = it.getOperand(); if (StructType* S = it.getStructTypeOrNull()) { off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; } int64_t sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto* c = dyn_cast<ConstantInt>(ix)) off += c->getSExtValue() * sc; else { d.ops.push_back(opnd(ix)); d.idx.push_back({(int)d.ops.size() - 1, sc}); } }
        d.off = off; if (G->getType()->isVectorTy()) d.opc = ~0u; continue;
      }
      switch (I.getOpcode()) {
      case Instruction::Br: { auto* r = cast<BranchInst>(&I); d.bb0 = bbi[r->getSuccessor(0)]; if (r->isConditional()) { d.ops.push_back(opnd(r->getCondition())); d.bb1 = bbi[r->getSuccessor(1)]; } break; }
      case Instruction::Switch: { auto* r = cast<SwitchInst>(&I); d.ops.push_back(opnd(r->getCondition())); d.bb0 = bbi[r->getDefaultDest()]; for (auto& c : r->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
      case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); d.ops.push_back(opnd(a->getArraySize())); d.size = DL->getTypeAllocSize(a->getAllocatedType()); break; }
      case Instruction::Load: d.ops.push_back(opnd(I.getOperand(0))); break;
      case Instruction::Store: d.ops.push_back(opnd(I.getOperand(0))); d.ops.push_back(opnd(I.getOperand(1))); d.ty = I.getOperand(0)->getType(); break;
      case Instruction::ICmp: case Instruction::FCmp: d.pred = cast<CmpInst>(&I)->getPredicate(); d.ops.push_back(opnd(I.getOperand(0))); d.ops.push_back(opnd(I.getOperand(1))); break;
      case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(&I); d.ops.push_back(opnd(x->getAggregateOperand())); for (unsigned k : x->indices()) d.agg.push_back(k); break; }
      case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(&I); d.ops.push_back(opnd(x->getAggregateOperand())); d.ops.push_back(opnd(x->getInsertedValueOperand())); for (unsigned k : x->indices()) d.agg.push_back(k); break; }
      case Instruction::LandingPad: break;
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: default: for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) d.ops.push_back(opnd(o)); break;
      }
      if (I.getType()->isVectorTy()) d.opc = ~0u;
    }
  }
}

// ------------------------------------------------------------------ exceptions
static std::unordered_map<u64, int> tiSel; static int selOf(u64 ti) { auto it = tiSel.find(ti); if (it != tiSel.end()) return it->second; int k = tiSel.size() + 1; tiSel[ti] = k; return k; }
static u64 vtSi = 0, vtVmi = 0;
static u64 rd64(State& s, u64 a) { u64 off, id; Obj* o = access(s, a, 8, false, off, id); Val v = loadObj(s, o, id, off, 8, 64); return v.e ? 0 : v.c; }
static bool derives(State& s, u64 ti, u64 target, int d = 0) {
  if (ti == target) return true; if (d > 8 || !ti) return false;
  u64 id = ti >> OBJ_SHIFT; Obj* o = s.mem.get(id); if (!o || o->size < 16) return false;
  auto g = globAt.find(ti); if (g == globAt.end() || !g->second->hasInitializer()) return false;
  u64 vt = rd64(s, ti);
  if (vtSi && vt >= vtSi && vt < vtSi + 64) return derives(s, rd64(s, ti + 16), target, d + 1);
  if (vtVmi && vt >= vtVmi && vt < vtVmi + 64) { u64 cnt = rd64(s, ti + 16) >> 32; for (u64 i = 0; i < cnt && i < 8; i++) if (derives(s, rd64(s, ti + 24 + 16 * i), target, d + 1)) return true; }
  return false;
}
// the addresses at which an object of type ti at address a holds a public base (or itself) of the target type
static void basesOf(State& s, u64 ti, u64 a, u64 target, std::vector<u64>& found, int d = 0) {
  if (ti == target) { if (std::find(found.begin(), found.end(), a) == found.end()) found.push_back(a); return; } if (d > 8 || !ti) return;
  auto g = globAt.find(ti); if (g == globAt.end() || !g->second->hasInitializer()) return;
  u64 vt = rd64(s, ti);
  if (vtSi && vt >= vtSi && vt < vtSi + 64) return basesOf(s, rd64(s, ti + 16), a, target, found, d + 1);
  if (vtVmi && vt >= vtVmi && vt < vtVmi + 64) { u64 cnt = rd64(s, ti + 16) >> 32; for (u64 i = 0; i < cnt && i < 8; i++) { u64 fl = rd64(s, ti + 32 + 16 * i); if (!(fl & 2)) continue; int64_t off = (int64_t)fl >> 8; if (fl & 1) off = (int64_t)rd64(s, rd64(s, a) + off); basesOf(s, rd64(s, ti + 24 + 16 * i), a + off, target, found, d + 1); } }
}
static string tiName(u64 ti) { auto g = globAt.find(ti); return g == globAt.end() ? "?" : llvm::demangle(g->second->getName().str()); }
// selects the landing pad outcome for frame f when an exception of type ti arrives: 0 none, 1 cleanup only, 2 handler
static int matchPad(State& s, Frame& f, u64 ti, int& sel) {
  DInst& call = f.f->bbs[f.bb].ins[f.ip]; if (call.opc != llvm::Instruction::Invoke) return 0;
  auto* LP = llvm::cast<llvm::InvokeInst>(call.I)->getLandingPadInst(); sel = 0;
  for (unsigned i = 0; i < LP->getNumClauses(); i++) { llvm::Constant* c = LP->getClause(i);
    if (LP->isCatch(i)) { if (llvm::isa<llvm::ConstantPointerNull>(c)) { sel = 1 << 20; return 2; } u64 t = constU64(c); if (derives(s, ti, t)) { sel = selOf(t); return 2; } }
    else { sel = -1; bool allowed = false; if (auto* arr = llvm::dyn_cast<llvm::ConstantArray>(c)) for (auto& o : arr->operands()) if (derives(s, ti, constU64(llvm::cast<llvm::Constant>(o)))) allowed = true; if (!allowed) return 2; } }
  return LP->isCleanup() ? 1 : 0;
}
static void popFrame(State& s) { for (u64 a : s.st.back().allocas) s.mem.drop(a >> OBJ_SHIFT); s.st.pop_back(); }
static void enterBlock(State& s, Frame& f, int bb);
static void unwind(State& s, u64 ptr, bool fromTop) {
  u64 ti = 0; for (auto& e : s.excs) if (e.ptr == ptr) ti = e.ti;
  (void)fromTop; bool handler = false; for (size_t i = s.st.size(); i-- > 0;) { int sel; if (matchPad(s, s.st[i], ti, sel) == 2) { handler = true; break; } }
  if (!handler) fail(s, "uncaught-exception", "exception of type " + tiName(ti) + " leaves the harness uncaught");
  while (!s.st.empty()) { int sel; int k = matchPad(s, s.st.back(), ti, sel); if (k) { Frame& f = s.st.back(); DInst& call = f.f->bbs[f.bb].ins[f.ip]; int ub = call.bb1; enterBlock(s, f, ub); DInst& lp = f.f->bbs[ub].ins[0]; if (lp.opc != llvm::Instruction::LandingPad) unsupported(s, "landing pad expected"); f.r[lp.dst] = mkAgg({VC(ptr), VC((u32)(k == 2 ? sel : 0))}); f.ip = 1; return; } popFrame(s); }
}

// ------------------------------------------------------------------ interpreter core
static inline Val get(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.r[o.reg] : o.k; }
static void enterBlock(State& s, Frame& f, int bb) {
  f.prev = f.bb; f.bb = bb; f.ip = 0; DBlock& b = f.f->bbs[bb]; sh->cov[b.covIdx] = 1; 
  if (!b.phis.empty()) { Val tmp[64]; vector<Val> big; size_t n = b.phis.size(); Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { bool hit = false; for (auto& in : b.phis[i].in) if (in.first == f.prev) { t[i] = get(f, in.second); hit = true; break; } if (!hit) unsupported(s, "phi without incoming block"); }
    for (size_t i = 0; i < n; i++) f.r[b.phis[i].dst] = t[i]; }
}
static void pushCall(State& s, Func* fn, const vector<Val>& args) {
  if (!fn->decoded) decode(fn);
  if (s.st.size() > 400) fail(s, "stack-overflow", "call depth exceeds 400 frames");
  s.st.emplace_back(); Frame& n = s.st.back(); n.f = fn; n.bb = 0; n.prev = -1; n.ip = 0; n.r.resize(fn->nregs, VC(0)); for (size_t i = 0; i < args.size() && i < fn->F->arg_size(); i++) n.r[i] = args[i]; if (fn->F->isVarArg()) for (size_t i = fn->F->arg_size(); i < args.size(); i++) n.va.push_back(args[i]); sh->cov[fn->bbs[0].covIdx] = 1;
}
static Val binop(State& s, unsigned opc, unsigned w, Val a, Val b, DInst& d) {
  using namespace llvm;
  switch (opc) { case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    if (!b.e) { if (b.c == 0) fail(s, "div-by-zero", "division by zero"); }
    else if (decide(s, X.bin(O_EQ, b.e, X.con(0, w)))) fail(s, "div-by-zero", "division by zero"); break; }
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: 
    if (!b.e) { if (b.c >= w) fail(s, "bad-shift", "shift amount " + std::to_string(b.c) + " is not below the operand width"); }
    else if (decide(s, X.mkNot(X.bin(O_ULT, b.e, X.con(w, w))))) fail(s, "bad-shift", "shift amount is not below the operand width"); break;
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: if (d.nsw && w <= 64 && s.st.back().f->repo) {
    unsigned ww = opc == Instruction::Mul ? 2 * w : w + 1; Op o = opc == Instruction::Add ? O_ADD : opc == Instruction::Sub ? O_SUB : O_MUL; bool over;
    if (!a.e && !b.e) { __int128 x = (int64_t)sextw(a.c & m64(w), w), y = (int64_t)sextw(b.c & m64(w), w), r = o == O_ADD ? x + y : o == O_SUB ? x - y : x * y, lim = (__int128)1 << (w - 1); over = r >= lim || r < -lim; }
    else { Expr *x = toE(a, w), *y = toE(b, w), *full = X.bin(o, X.sext(x, ww), X.sext(y, ww)); over = decide(s, X.mkNot(X.bin(O_EQ, full, X.sext(X.extract(full, 0, w), ww)))); }
    if (over) fail(s, "signed-overflow", "signed integer overflow"); } break;
  default: break; }
  if (opc == Instruction::SDiv && s.st.back().f->repo && w <= 64) { Expr *x = toE(a, w), *y = toE(b, w); Expr* bad = X.bin(O_AND, X.bin(O_EQ, x, X.con((u128)1 << (w - 1), w)), X.bin(O_EQ, y, X.con(m64(w), w))); if (bad->op == O_CONST ? bad->val != 0 : decide(s, bad)) fail(s, "signed-overflow", "signed division overflow"); }
  if (!a.e && !b.e && w <= 64) { u64 m = m64(w), x = a.c & m, y = b.c & m; switch (opc) {
    case Instruction::Add: return VC((x + y) & m); case Instruction::Sub: return VC((x - y) & m); case Instruction::Mul: return VC((x * y) & m); case Instruction::And: return VC(x & y); case Instruction::Or: return VC(x | y); case Instruction::Xor: return VC(x ^ y);
    case Instruction::UDiv: return VC(x / y); case Instruction::URem: return VC(x % y); case Instruction::Shl: return VC((x << y) & m); case Instruction::LShr: return VC(x >> y); default: break; } }
  static const map<unsigned, Op> tab = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
  return VE(X.bin(tab.at(opc), toE(a, w), toE(b, w)));
}
static Val icmp(unsigned p, unsigned w, Val a, Val b) {
  using namespace llvm;
  if (!a.e && !b.e) { u64 m = m64(w), x = a.c & m, y = b.c & m; int64_t sx = (int64_t)sextw(x, w), sy = (int64_t)sextw(y, w); bool r = false; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; } return VC(r); }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return VE(X.bin(O_EQ, x, y)); case CmpInst::ICMP_NE: return VE(X.mkNot(X.bin(O_EQ, x, y))); case CmpInst::ICMP_ULT: return VE(X.bin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return VE(X.bin(O_ULE, x, y)); case CmpInst::ICMP_UGT: return VE(X.bin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return VE(X.bin(O_ULE, y, x)); case CmpInst::ICMP_SLT: return VE(X.bin(O_SLT, x, y)); case CmpInst::ICMP_SLE: return VE(X.bin(O_SLE, x, y)); case CmpInst::ICMP_SGT: return VE(X.bin(O_SLT, y, x)); default: return VE(X.bin(O_SLE, y, x)); }
}
static Val fcmp(unsigned p, unsigned w, Val a, Val b) {
  using namespace llvm; Expr *x = toE(a, w), *y = toE(b, w); Expr* un = X.fop(O_FUNO, 1, x, y); Expr* r;
  switch (p & 7) { case 0: r = X.con(0, 1); break; case 1: r = X.fop(O_FOEQ, 1, x, y); break; case 2: r = X.fop(O_FOLT, 1, y, x); break; case 3: r = X.fop(O_FOLE, 1, y, x); break; case 4: r = X.fop(O_FOLT, 1, x, y); break; case 5: r = X.fop(O_FOLE, 1, x, y); break; case 6: r = X.bin(O_OR, X.fop(O_FOLT, 1, x, y), X.fop(O_FOLT, 1, y, x)); break; default: r = X.mkNot(un); break; }
  if (p >= 8) { if (p == CmpInst::FCMP_TRUE) return VC(1); r = X.bin(O_OR, r, un); if (p == CmpInst::FCMP_UNO) r = un; }
  return VE(r);
}
static Val selectV(Expr* c, const Val& a, const Val& b, llvm::Type* t) {
  if (t->isStructTy() || t->isArrayTy()) { AggV *x = (AggV*)a.c, *y = (AggV*)b.c; vector<Val> v; for (unsigned i = 0; i < x->v.size(); i++) v.push_back(selectV(c, x->v[i], y->v[i], t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())); return mkAgg(v); }
  unsigned w = widthOf(t); return VE(X.ite(c, toE(a, w), toE(b, w)));
}
// a symbolic-address load from a single small object as an if-then-else chain; false if not applicable
static bool loadIte(State& s, Expr* a, unsigned n, unsigned w, Val& out) {
  for (auto& k : s.known) if (k.first == a) return false;
  u64 a0 = (u64)evalIn(s.model, a); u64 id = a0 >> OBJ_SHIFT; Obj* o = s.mem.get(id); if (!o || o->freed || n == 0 || n > 8) return false; u64 cnt = o->size / n; if (cnt == 0 || cnt > 260) return false;
  u64 base = addrOf(id); Expr* off = X.bin(O_SUB, a, X.con(base, 64)); u64 r = (a0 - base) % n;
  Expr* ok = X.bin(O_ULE, off, X.con(o->size - n, 64)); if (o->size < n) return false; if (n > 1) ok = X.bin(O_AND, ok, X.bin(O_EQ, X.bin(O_AND, off, X.con(n - 1, 64)), X.con(r, 64)));
  if ((n & (n - 1)) != 0) return false;
  ModelP m; if (checkSat(s.pc, X.mkNot(ok), &m)) return false;
  checkUndef(s, a, "an address");
  // group equal contents
  Expr* acc = nullptr; vector<Expr*> vals; vector<u64> offs; for (u64 k = r; k + n <= o->size; k += n) { bool undef = false; for (unsigned j = 0; j < n; j++) if (o->st[k + j] == 1) undef = true; Val v; if (undef) { v = VE(X.sym(s.nundef++, "u", n * 8, true)); v = VE(X.extract(v.e, 0, w)); } else v = loadObj(s, o, id, k, n, w); vals.push_back(toE(v, w)); offs.push_back(k); }
  std::unordered_map<Expr*, vector<u64>> grp; for (size_t i = 0; i < vals.size(); i++) grp[vals[i]].push_back(offs[i]);
  Expr* big = nullptr; size_t bs = 0; for (auto& g : grp) if (g.second.size() > bs) { bs = g.second.size(); big = g.first; }
  acc = big; for (size_t i = vals.size(); i-- > 0;) if (vals[i] != big) acc = X.ite(X.bin(O_EQ, off, X.con(offs[i], 64)), vals[i], acc);
  out = VE(acc); return true;
}
static Expr* toBool(const Val& v) { return v.e ? v.e : X.con(v.c & 1, 1); }

static void finishPath(State& s) {
  checkObligations(s); sh->paths++; if (!s.pc.empty()) sh->symPaths++; u64 l = s.pc.size(), mx = sh->maxPc; while (l > mx && !sh->maxPc.compare_exchange_weak(mx, l)) {}
  u64 p = sh->paths; bool take = p <= opt.samples / 2 + 1 || (p * 2654435761u >> 7) % (1 + p * 2 / (opt.samples + 1)) == 0;
  if (take && sh->samples < opt.samples * 4) { sh->samples++; string cv = "["; for (size_t i = 0; i < s.covers.size(); i++) { if (i) cv += ","; cv += jesc(coverNames[s.covers[i]]); } cv += "]"; outLine("{\"t\":\"sample\",\"entry\":" + jesc(entries[s.entry].text) + ",\"values\":" + valuesJson(s, s.model) + ",\"outs\":" + outsJson(s, s.model) + ",\"covers\":" + cv + ",\"npc\":" + std::to_string(s.pc.size()) + "}"); }
}
static std::set<pair<u32, u32>> coverSeen;

static void retTo(State& s, Val v, bool hasVal) { // return into the caller of the just-popped frame
  if (s.st.empty()) { finishPath(s); throw PathEnd(); }
  Frame& f = s.st.back(); DInst& c = f.f->bbs[f.bb].ins[f.ip]; if (hasVal && c.dst >= 0) f.r[c.dst] = v;
  if (c.opc == llvm::Instruction::Invoke) enterBlock(s, f, c.bb0); else f.ip++;
}
static void throwExc(State& s, u64 ptr) { unwind(s, ptr, true); }
static bool failAllocNow(State& s) { if (s.allocBudget < 0) return false; if (s.allocBudget == 0) { s.allocBudget = -1; return true; } s.allocBudget--; return false; }
static Func* findFunc(const char* n) { auto* F = M->getFunction(n); return F && !F->isDeclaration() ? funcOf[F] : nullptr; }

// returns true when control flow was already arranged (no fallthrough)
static bool callBuiltin(State& s, Frame& f, DInst& d, int b, vector<Val>& a, Val& res) {
  auto W = [&](int i) { return d.ops[i].w; };
  auto cst = [&](int i, const char* what) { return conc(s, a[i], what); };
  switch (b) {
  case B_IGNORE: case B_ASSUME: res = VC(0); return false;
  case B_MEMCPY: { u64 n = cst(2, "a copy length"), x = cst(0, "an address"), y = cst(1, "an address"); copyMem(s, x, y, n); res = VC(x); return false; }
  case B_MEMSET: { u64 n = cst(2, "a fill length"), x = cst(0, "an address"); if (n) { u64 off, id; access(s, x, n, true, off, id); Obj* o = s.mem.wget(id); Val v = a[1]; if (v.e) v = VE(X.extract(v.e, 0, 8)); for (u64 i = 0; i < n; i++) storeObj(o, off + i, v.e ? v : VC(v.c & 255), 1, 8); } res = VC(x); return false; }
  case B_MEMCMP: { u64 n = cst(2, "a compare length"), x = cst(0, "an address"), y = cst(1, "an address"); Expr* r = X.con(0, 32); if (n) { u64 o1, i1, o2, i2; access(s, x, n, false, o1, i1); access(s, y, n, false, o2, i2); for (u64 i = n; i-- > 0;) { Obj *p = s.mem.get(i1); Expr* u = byteE(s, p, i1, o1 + i); Obj* q = s.mem.get(i2); Expr* v = byteE(s, q, i2, o2 + i); r = X.ite(X.bin(O_EQ, u, v), r, X.ite(X.bin(O_ULT, u, v), X.con(-1, 32), X.con(1, 32))); } } res = VE(r); return false; }
  case B_STRLEN: { u64 x = cst(0, "an address"); u64 n = 0; for (;; n++) { u64 off, id; Obj* o = access(s, x + n, 1, false, off, id); Expr* c = byteE(s, o, id, off); if (decide(s, X.bin(O_EQ, c, X.con(0, 8)))) break; } res = VC(n); return false; }
  case B_NEW: case B_NEWARR: case B_MALLOC: case B_NEWNT: case B_NEWNTA: { u64 n = cst(0, "an allocation size");
    if ((b == B_NEW || b == B_NEWARR) && (failAllocNow(s) || n > (1ull << 40))) { Func* t = findFunc("vsrt_throw_bad_alloc"); if (!t) unsupported(s, "allocation failure without runtime"); pushCall(s, t, {}); return true; }
    if ((b == B_NEWNT || b == B_NEWNTA) && failAllocNow(s)) { res = VC(0); return false; }
    res = VC(allocObj(s, n, b == B_NEWARR || b == B_NEWNTA ? K_NEWARR : b == B_MALLOC ? K_MALLOC : K_NEW)); return false; }
  case B_CALLOC: { u64 n = cst(0, "an allocation size") * cst(1, "an allocation size"); res = VC(allocObj(s, n, K_MALLOC, false)); return false; }
  case B_REALLOC: { u64 p = cst(0, "an address"), n = cst(1, "an allocation size"); u64 q = allocObj(s, n, K_MALLOC); if (p) { u64 off, id; Obj* o = access(s, p, 0, false, off, id); copyMem(s, q, p, std::min(n, o->size)); freeObj(s, p, K_MALLOC); } res = VC(q); return false; }
  case B_DEL: freeObj(s, cst(0, "a freed address"), K_NEW); return false;
  case B_DELARR: freeObj(s, cst(0, "a freed address"), K_NEWARR); return false;
  case B_FREE: freeObj(s, cst(0, "a freed address"), K_MALLOC); return false;
  case B_CXA_ALLOC: res = VC(allocObj(s, cst(0, "a size"), K_EXC)); return false;
  case B_CXA_FREE: freeObj(s, cst(0, "an address"), K_EXC); return false;
  case B_CXA_THROW: { u64 p = cst(0, "an address"); s.excs.push_back({p, cst(1, "x"), cst(2, "x"), 0, false}); throwExc(s, p); return true; }
  case B_CXA_GETPTR: res = a[0]; return false;
  case B_CXA_BEGIN: { u64 p = cst(0, "an address"); for (auto& e : s.excs) if (e.ptr == p) { e.handlers++; e.rethrown = false; } s.caught.push_back(p); res = VC(p); return false; }
  case B_CXA_END: { if (s.caught.empty()) unsupported(s, "__cxa_end_catch without exception"); u64 p = s.caught.back(); s.caught.pop_back(); for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].ptr == p) { if (--s.excs[i].handlers == 0 && !s.excs[i].rethrown) { u64 dt = s.excs[i].dtor; s.excs.erase(s.excs.begin() + i); if (dt && funcAt.count(dt)) { f.ip++; if (d.opc == llvm::Instruction::Invoke) { f.ip--; enterBlock(s, f, d.bb0); } /* run destructor, then release */ Func* fn = funcAt[dt]; if (fn->F->isDeclaration()) { freeObj(s, p, K_EXC); return true; } pushCall(s, fn, {VC(p)}); s.st.back().freeOnRet = p; return true; } freeObj(s, p, K_EXC); } break; } return false; }
  case B_CXA_RETHROW: { if (s.caught.empty()) fail(s, "terminate", "rethrow without an active exception"); u64 p = s.caught.back(); for (auto& e : s.excs) if (e.ptr == p) e.rethrown = true; throwExc(s, p); return true; }
  case B_UNCAUGHT: res = VC(0); return false;
  case B_DYNCAST: { u64 p = cst(0, "an address"); if (!p) { res = VC(0); return false; } u64 vp = rd64(s, p), whole = p + rd64(s, vp - 16), ti = rd64(s, vp - 8); std::vector<u64> found; basesOf(s, ti, whole, cst(2, "a type"), found); if (found.size() > 1) unsupported(s, "dynamic_cast to a repeated base"); res = VC(found.empty() ? 0 : found[0]); return false; }
  case B_TERMINATE: fail(s, "terminate", "std::terminate called");
  case B_ABORT: fail(s, "abort", "program aborts");
  case B_ASSERTFAIL: { u64 p = cst(0, "x"); fail(s, "assert", "assert(" + readStr(s, p) + ") fails"); }
  case B_PUREVIRT: fail(s, "pure-virtual", "pure virtual function called");
  case B_TRAP: fail(s, "trap", "trap instruction reached");
  case B_TYPEIDFOR: res = VC((u32)selOf(cst(0, "x"))); return false;
  case B_ATEXIT: res = VC(0); return false;
  case B_GUARD_ACQ: { u64 p = cst(0, "x"); u64 off, id; Obj* o = access(s, p, 1, false, off, id); u8 was = o->d[off]; if (!was) { Obj* w = s.mem.wget(id); w->d[off] = 1; w->st[off] = 0; } res = VC(!was); return false; }
  case B_STACKSAVE: res = VC(0); return false;
  // ---- harness interface
  case B_VS_SYM: { string n = readStr(s, cst(0, "x")); unsigned w = cst(1, "x"); if (w == 0 || w > 64) unsupported(s, "vs_sym width"); Expr* e = X.sym(s.nsym++, n, w, false); s.syms.push_back(e->aux); res = VE(X.zext(e, 64)); return false; }
  case B_VS_AUX: { string n = readStr(s, cst(0, "x")); unsigned w = cst(1, "x"); Expr* e = X.sym(s.nsym++, n, w, false, a[2].e ? X.extract(a[2].e, 0, w) : X.con(a[2].c, w)); res = VE(X.zext(e, 64)); return false; }
  case B_VASTART: { u64 ap = cst(0, "x"); Frame& g = s.st.back(); u64 n = g.va.size(); u64 area = allocObj(s, 8 * (n + 1), K_STACK); g.allocas.push_back(area); Obj* o = s.mem.wget(area >> OBJ_SHIFT); for (u64 i = 0; i < n; i++) storeObj(o, 8 * i, g.va[i].e ? VE(X.zext(g.va[i].e, 64)) : g.va[i], 8, 64); u64 off, id; access(s, ap, 24, true, off, id); Obj* v = s.mem.wget(id); storeObj(v, off, VC(48), 4, 32); storeObj(v, off + 4, VC(304), 4, 32); storeObj(v, off + 8, VC(area), 8, 64); storeObj(v, off + 16, VC(area), 8, 64); return false; }
  case B_VS_ASSUME: { Expr* c = X.extract(toE(a[0], W(0)), 0, 1); if (W(0) != 1) c = X.mkNot(X.bin(O_EQ, toE(a[0], W(0)), X.con(0, W(0)))); { Expr* q = reduce(s, c); if (q->op == O_CONST && c->op != O_CONST) oblige(s, q->val ? c : X.mkNot(c)); if (X.isC(q, 0)) { sh->infeasible++; checkObligations(s); throw PathEnd(); } if (q->op == O_CONST) return false; c = q; } checkUndef(s, c, "an assumption"); if (evalIn(s.model, c)) { addPc(s, c); return false; } ModelP m; if (!checkSat(s.pc, c, &m)) { sh->infeasible++; throw PathEnd(); } s.model = m; addPc(s, c); return false; }
  case B_VS_ASSERT: { Expr* c = W(0) == 1 ? toE(a[0], 1) : X.mkNot(X.bin(O_EQ, toE(a[0], W(0)), X.con(0, W(0)))); sh->asserts++; if (c->op == O_CONST) sh->constAsserts++; { Expr* q = reduce(s, c); if (q->op == O_CONST && c->op != O_CONST) { sh->closureAsserts++; if (q->val) oblige(s, c); } c = q; } int k = exactTruth(s, c); if (k == 1) return false; string msg = readStr(s, cst(1, "x")); checkUndef(s, c, "an assertion"); if (k == 0) fail(s, "assertion", msg); sh->assertQueries++; if (opt.trace) { string l; for (Expr* p : s.pc) l += exprStr(p) + " "; fprintf(stderr, "ASSERT %s | %s\n", exprStr(c).c_str(), l.c_str()); } Expr* nc = X.mkNot(c); ModelP m; bool bad = evalIn(s.model, nc) != 0; if (bad) m = s.model; else bad = checkSat(s.pc, nc, &m); if (bad) { violation(s, "assertion", msg, m); if (!evalIn(s.model, c)) { ModelP g; if (!checkSat(s.pc, c, &g)) throw PathEnd(); s.model = g; } addPc(s, c); } else addFact(s, c); return false; }
  case B_VS_OUT: s.outs.push_back(a[0]); return false;
  case B_VS_COVER: { string n = readStr(s, cst(0, "x")); u32 id; auto it = coverId.find(n); if (it == coverId.end()) { id = coverNames.size(); coverNames.push_back(n); coverId[n] = id; } else id = it->second; bool have = false; for (u32 x : s.covers) if (x == id) have = true; if (!have) s.covers.push_back(id); if (coverSeen.insert({s.entry, id}).second) outLine("{\"t\":\"cover\",\"entry\":" + jesc(entries[s.entry].text) + ",\"name\":" + jesc(n) + "}"); return false; }
  case B_VS_PARAM: { string n = readStr(s, cst(0, "x")); auto& p = entries[s.entry].params; auto it = p.find(n); res = it == p.end() ? a[1] : VC((u64)it->second); return false; }
  case B_VS_CONC: res = VC(cst(0, "a concretised value")); return false;
  case B_VS_SAME: res = VC(a[0].e == a[1].e && a[0].c == a[1].c); return false; // syntactically the same value
  case B_VS_ISSYM: res = VC(a[0].e != nullptr); return false;
  case B_VS_ENGINE: res = VC(1); return false;
  case B_VS_FAILALLOC: { u64 n = cst(0, "x"); s.allocBudget = (int64_t)n; return false; }
  case B_VS_LIVE: { u64 n = 0; for (u64 i = 1; i < s.mem.nextId; i++) { Obj* o = s.mem.get(i); if (o && !o->freed && (o->kind == K_NEW || o->kind == K_NEWARR || o->kind == K_MALLOC || o->kind == K_EXC)) n++; } res = VC(n); return false; }
  case B_VS_LIVEB: { u64 n = 0; for (u64 i = 1; i < s.mem.nextId; i++) { Obj* o = s.mem.get(i); if (o && !o->freed && (o->kind == K_NEW || o->kind == K_NEWARR)) n += o->size; } res = VC(n); return false; }
  case B_VS_END: finishPath(s); throw PathEnd();
  // ---- intrinsics
  case B_EXPECT: res = a[0]; return false;
  case B_CTPOP: { unsigned w = W(0); if (!a[0].e) { res = VC(__builtin_popcountll(a[0].c & m64(w))); return false; } Expr* r = X.con(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(O_ADD, r, X.zext(X.extract(a[0].e, i, 1), w)); res = VE(r); return false; }
  case B_CTLZ: { unsigned w = W(0); Expr* x = toE(a[0], w); Expr* r = X.con(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(x, i, 1), X.con(w - 1 - i, w), r); res = VE(r); return false; }
  case B_CTTZ: { unsigned w = W(0); Expr* x = toE(a[0], w); Expr* r = X.con(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.extract(x, i, 1), X.con(i, w), r); res = VE(r); return false; }
  case B_UADDO: case B_SADDO: case B_USUBO: case B_SSUBO: case B_UMULO: case B_SMULO: { unsigned w = W(0); if (w > 64) unsupported(s, "wide overflow op"); bool sg = b == B_SADDO || b == B_SSUBO || b == B_SMULO; Expr *x = toE(a[0], w), *y = toE(a[1], w); unsigned ww = (b == B_UMULO || b == B_SMULO) ? 2 * w : w + 1; Expr *xx = sg ? X.sext(x, ww) : X.zext(x, ww), *yy = sg ? X.sext(y, ww) : X.zext(y, ww); Op o = (b == B_UADDO || b == B_SADDO) ? O_ADD : (b == B_USUBO || b == B_SSUBO) ? O_SUB : O_MUL; Expr* full = X.bin(o, xx, yy); Expr* r = X.extract(full, 0, w); Expr* ov; if (b == B_UMULO && ExprPool::isC(y) && y->val) ov = X.bin(O_ULT, X.con((u128)m64(w) / y->val, w), x); else ov = X.mkNot(X.bin(O_EQ, full, sg ? X.sext(r, ww) : X.zext(r, ww))); res = mkAgg({VE(r), VE(ov)}); return false; }
  case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: { unsigned w = W(0); Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr* c = X.bin(b == B_UMAX || b == B_UMIN ? O_ULT : O_SLT, x, y); res = VE((b == B_UMAX || b == B_SMAX) ? X.ite(c, y, x) : X.ite(c, x, y)); return false; }
  case B_ABS: { unsigned w = W(0); Expr* x = toE(a[0], w); res = VE(X.ite(X.bin(O_SLT, x, X.con(0, w)), X.bin(O_SUB, X.con(0, w), x), x)); return false; }
  case B_FABS: { unsigned w = W(0); res = VE(X.bin(O_AND, toE(a[0], w), X.con(m64(w) >> 1, w))); return false; }
  case B_ROUND: case B_TRUNC: case B_FLOOR: case B_CEIL: case B_SQRT: case B_LOG: {
    if (a[0].e && W(0) == 64 && b != B_SQRT && b != B_LOG) if (Func* t = findFunc(b == B_FLOOR ? "vsrt_floor" : b == B_CEIL ? "vsrt_ceil" : b == B_ROUND ? "vsrt_round" : "vsrt_trunc")) { pushCall(s, t, {a[0]}); return true; }
    u64 v = cst(0, "a floating point argument"); double x = ExprPool::asD(v, W(0)); x = b == B_FLOOR ? floor(x) : b == B_ROUND ? round(x) : b == B_TRUNC ? trunc(x) : b == B_CEIL ? ceil(x) : b == B_SQRT ? sqrt(x) : log(x); res = VC((u64)ExprPool::fromD(x, W(0))); return false; }
  case B_POW: { double x = ExprPool::asD(cst(0, "x"), 64), y = ExprPool::asD(cst(1, "x"), 64); res = VC((u64)ExprPool::fromD(pow(x, y), 64)); return false; }
  case B_FMA: { unsigned w = W(0); res = VE(X.fop(O_FADD, w, X.fop(O_FMUL, w, toE(a[0], w), toE(a[1], w)), toE(a[2], w))); return false; }
  case B_FSHL: case B_FSHR: { unsigned w = W(0); u64 n = cst(2, "a shift amount") % w; Expr* c = X.concat(toE(a[0], w), toE(a[1], w)); res = VE(b == B_FSHL ? X.extract(c, w - n, w) : X.extract(c, n, w)); if (b == B_FSHL && n == 0) res = a[0]; return false; }
  case B_BSWAP: { unsigned w = W(0); Expr* x = toE(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* t = X.extract(x, 8 * i, 8); r = r ? X.concat(r, t) : t; } res = VE(r); return false; }
  case B_UADDSAT: { unsigned w = W(0); Expr *x = toE(a[0], w), *y = toE(a[1], w), *r = X.bin(O_ADD, x, y); res = VE(X.ite(X.bin(O_ULT, r, x), X.con(m64(w), w), r)); return false; }
  case B_USUBSAT: { unsigned w = W(0); Expr *x = toE(a[0], w), *y = toE(a[1], w); res = VE(X.ite(X.bin(O_ULT, x, y), X.con(0, w), X.bin(O_SUB, x, y))); return false; }
  case B_OBJSIZE: res = VC(m64(d.w)); if (!a[1].e && a[1].c) res = VC(0); return false;
  case B_ISCONST: res = VC(0); return false;
  case B_PTRMASK: res = VE(X.bin(O_AND, toE(a[0], 64), toE(a[1], 64))); return false;
  default: unsupported(s, "call to " + (d.callee ? shortName(d.callee) : string("?")));
  }
}

static void step(State& s) {
  using namespace llvm; Frame& f = s.st.back(); DInst& d = f.f->bbs[f.bb].ins[f.ip];
  switch (d.opc) {
  case Instruction::Ret: { Val v = VC(0); bool hv = false; if (!d.ops.empty()) { v = get(f, d.ops[0]); hv = true; } u64 fr = f.freeOnRet; bool silent = fr != 0; popFrame(s); if (silent) { freeObj(s, fr, K_EXC); return; } retTo(s, v, hv); return; }
  case Instruction::Br: { if (d.bb1 < 0) { enterBlock(s, f, d.bb0); return; } Val c = get(f, d.ops[0]); bool t = c.e ? decide(s, c.e) : (c.c & 1); enterBlock(s, f, t ? d.bb0 : d.bb1); return; }
  case Instruction::Switch: { Val v = get(f, d.ops[0]); unsigned w = d.ops[0].w; if (!v.e) { int t = d.bb0; for (auto& c : d.cases) if (c.first == (v.c & m64(w))) { t = c.second; break; } enterBlock(s, f, t); return; }
    u64 mv = (u64)evalIn(s.model, v.e); // take the side of the model first
    int t = d.bb0; bool isCase = false; for (auto& c : d.cases) if (c.first == mv) { t = c.second; isCase = true; }
    Expr* g; if (isCase) { g = X.con(0, 1); for (auto& c : d.cases) if (c.second == t) g = X.bin(O_OR, g, X.bin(O_EQ, v.e, X.con(c.first, w))); if (t == d.bb0) { Expr* dg = X.con(1, 1); for (auto& c : d.cases) dg = X.bin(O_AND, dg, X.mkNot(X.bin(O_EQ, v.e, X.con(c.first, w)))); g = X.bin(O_OR, g, dg); } } else { g = X.con(1, 1); for (auto& c : d.cases) if (c.second != d.bb0) g = X.bin(O_AND, g, X.mkNot(X.bin(O_EQ, v.e, X.con(c.first, w)))); }
    if (!decide(s, g)) unsupported(s, "switch decision"); enterBlock(s, f, t); return; }
  case Instruction::Unreachable: fail(s, "unreachable", "undefined behaviour: unreachable code reached");
  case Instruction::Alloca: { Val n = get(f, d.ops[0]); u64 k = conc(s, n, "an alloca size"); u64 a = allocObj(s, k * d.size, K_STACK); Frame& g = s.st.back(); g.allocas.push_back(a); g.r[d.dst] = VC(a); g.ip++; return; }
  case Instruction::Load: { Opnd& o = d.ops[0]; Val a = get(f, o); if (a.e) { unsigned w = d.w; Val out; if (w != 0xFFFF && w <= 64 && loadIte(s, a.e, DL->getTypeStoreSize(d.ty), w, out)) { f.r[d.dst] = out; f.ip++; return; } conc(s, a, "an address"); if (o.reg >= 0) f.r[o.reg] = a; } f.r[d.dst] = loadTy(s, a.c, d.ty); f.ip++; return; }
  case Instruction::Store: { Opnd& o = d.ops[1]; Val a = get(f, o); if (a.e) { conc(s, a, "an address"); if (o.reg >= 0) f.r[o.reg] = a; } storeTy(s, a.c, get(f, d.ops[0]), d.ty); f.ip++; return; }
  case Instruction::GetElementPtr: { Val p = get(f, d.ops[0]); if (!p.e) { bool allc = true; u64 x = p.c + d.off; for (auto& i : d.idx) { Val v = get(f, d.ops[i.first]); if (v.e) { allc = false; break; } x += (u64)((int64_t)sextw(v.c, d.ops[i.first].w) * i.second); } if (allc) { f.r[d.dst] = VC(x); f.ip++; return; } }
    Expr* x = X.bin(O_ADD, toE(p, 64), X.con((u64)d.off, 64)); for (auto& i : d.idx) { Val v = get(f, d.ops[i.first]); Expr* e = X.sext(toE(v, d.ops[i.first].w), 64); x = X.bin(O_ADD, x, X.bin(O_MUL, e, X.con((u64)i.second, 64))); } f.r[d.dst] = VE(x); f.ip++; return; }
  case Instruction::ICmp: f.r[d.dst] = icmp(d.pred, d.ops[0].w, get(f, d.ops[0]), get(f, d.ops[1])); f.ip++; return;
  case Instruction::FCmp: f.r[d.dst] = fcmp(d.pred, d.ops[0].w, get(f, d.ops[0]), get(f, d.ops[1])); f.ip++; return;
  case Instruction::Select: { Val c = get(f, d.ops[0]), a = get(f, d.ops[1]), b = get(f, d.ops[2]); if (!c.e) f.r[d.dst] = (c.c & 1) ? a : b; else { int k = exactTruth(s, c.e); if (k < 0 && d.I->getType()->isPointerTy() && !(a.e == b.e && a.c == b.c)) k = decide(s, c.e); f.r[d.dst] = k == 1 ? a : k == 0 ? b : selectV(c.e, a, b, d.ty); } f.ip++; return; }
  case Instruction::Trunc: { Val v = get(f, d.ops[0]); f.r[d.dst] = v.e ? VE(X.extract(v.e, 0, d.w)) : VC(v.c & m64(d.w)); f.ip++; return; }
  case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = get(f, d.ops[0]); unsigned sw = d.ops[0].w; if (d.w > 64) f.r[d.dst] = VE(X.zext(toE(v, sw), d.w)); else if (v.e) f.r[d.dst] = VE(d.w >= sw ? X.zext(v.e, d.w) : X.extract(v.e, 0, d.w)); else f.r[d.dst] = VC(v.c & m64(std::min(sw, d.w))); if (d.w > 64 && !f.r[d.dst].e) f.r[d.dst] = Val{0, X.con(f.r[d.dst].c, d.w)}; f.ip++; return; }
  case Instruction::SExt: { Val v = get(f, d.ops[0]); unsigned sw = d.ops[0].w; if (v.e || d.w > 64) { Expr* e = X.sext(toE(v, sw), d.w); f.r[d.dst] = d.w > 64 ? Val{0, e} : VE(e); } else f.r[d.dst] = VC((u64)sextw(v.c, sw) & m64(d.w)); f.ip++; return; }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: f.r[d.dst] = get(f, d.ops[0]); f.ip++; return;
  case Instruction::FNeg: { unsigned w = d.w; f.r[d.dst] = VE(X.bin(O_XOR, toE(get(f, d.ops[0]), w), X.con(1ull << (w - 1), w))); f.ip++; return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Op o = d.opc == Instruction::FAdd ? O_FADD : d.opc == Instruction::FSub ? O_FSUB : d.opc == Instruction::FMul ? O_FMUL : O_FDIV; f.r[d.dst] = VE(X.fop(o, d.w, toE(get(f, d.ops[0]), d.w), toE(get(f, d.ops[1]), d.w))); f.ip++; return; }
  case Instruction::FPToSI: case Instruction::FPToUI: { unsigned fw = d.ops[0].w; bool sg = d.opc == Instruction::FPToSI;
    if (f.f->repo && (fw == 64 || fw == 32) && d.w <= 64) { // converting a value that does not fit is undefined
      auto fc = [&](double v) { if (fw == 64) { u64 b; memcpy(&b, &v, 8); return VC(b); } float g = (float)v; uint32_t b; memcpy(&b, &g, 4); return VC(b); };
      Val v = get(f, d.ops[0]); double hi = std::ldexp(1.0, sg ? d.w - 1 : d.w), lo = sg ? -std::ldexp(1.0, d.w - 1) : -1.0; bool incl = sg && d.w > (fw == 64 ? 53u : 24u); if (sg && !incl) lo -= 1;
      for (int k = 0; k < 2; k++) { Val c = k ? fcmp(CmpInst::FCMP_OLT, fw, v, fc(hi)) : fcmp(incl ? CmpInst::FCMP_OGE : CmpInst::FCMP_OGT, fw, v, fc(lo)); bool ok = c.e ? decide(s, c.e) : (c.c & 1); if (!ok) fail(s, "float-cast", "conversion of a floating-point value that does not fit the integer type"); } }
    Op o = d.opc == Instruction::FPToSI ? O_FPTOSI : O_FPTOUI; f.r[d.dst] = VE(X.fop(o, d.w, toE(get(f, d.ops[0]), d.ops[0].w))); f.ip++; return; }
  case Instruction::SIToFP: case Instruction::UIToFP: { Op o = d.opc == Instruction::SIToFP ? O_SITOFP : O_UITOFP; f.r[d.dst] = VE(X.fop(o, d.w, toE(get(f, d.ops[0]), d.ops[0].w))); f.ip++; return; }
  case Instruction::FPExt: case Instruction::FPTrunc: f.r[d.dst] = VE(X.fop(d.opc == Instruction::FPExt ? O_FPEXT : O_FPTRUNC, d.w, toE(get(f, d.ops[0]), d.ops[0].w))); f.ip++; return;
  case Instruction::ExtractValue: { Val v = get(f, d.ops[0]); for (unsigned k : d.agg) { if (v.e != AGG) unsupported(s, "extractvalue"); v = ((AggV*)v.c)->v[k]; } f.r[d.dst] = v; f.ip++; return; }
  case Instruction::InsertValue: { std::function<Val(Val, size_t)> ins = [&](Val g, size_t i) -> Val { if (i == d.agg.size()) return get(f, d.ops[1]); vector<Val> v = ((AggV*)g.c)->v; v[d.agg[i]] = ins(v[d.agg[i]], i + 1); return mkAgg(v); }; f.r[d.dst] = ins(get(f, d.ops[0]), 0); f.ip++; return; }
  case Instruction::Resume: { Val v = get(f, d.ops[0]); u64 p = ((AggV*)v.c)->v[0].c; /* continue unwinding in the callers */ popFrame(s); if (s.st.empty()) fail(s, "uncaught-exception", "exception leaves the harness uncaught"); throwExc(s, p); return; }
  case Instruction::Call: case Instruction::Invoke: {
    vector<Val> a; a.reserve(d.ops.size()); for (auto& o : d.ops) a.push_back(get(f, o));
    Func* fn = d.callee; int b = d.builtin;
    if (d.off == 1 && !b) { Val t = a.back(); a.pop_back(); u64 p = conc(s, t, "a call target"); auto it = funcAt.find(p); if (it == funcAt.end()) fail(s, "bad-call", p ? "call through a bad function pointer" : "call through a null function pointer"); fn = it->second; b = fn->builtin; }
    if (b == B_UNSUP || (!b && fn->F->isDeclaration())) unsupported(s, "call to undefined function " + shortName(fn));
    if (b) { Val res = VC(0); size_t depth = s.st.size(); (void)depth; if (callBuiltin(s, f, d, b, a, res)) return; Frame& g = s.st.back(); if (d.dst >= 0) g.r[d.dst] = res; if (d.opc == Instruction::Invoke) enterBlock(s, g, d.bb0); else g.ip++; return; }
    vector<u64> copies; for (size_t i = 0; i < a.size(); i++) if (d.byval[i]) { u64 n = d.byval[i]; u64 src = conc(s, a[i], "an address"); u64 c = allocObj(s, n, K_STACK); copyMem(s, c, src, n); a[i] = VC(c); copies.push_back(c); }
    pushCall(s, fn, a); for (u64 c : copies) s.st.back().allocas.push_back(c); return; }
  case Instruction::Fence: f.ip++; return;
  case Instruction::AtomicRMW: { auto* R = cast<AtomicRMWInst>(d.I); Val p = get(f, d.ops[0]); u64 a = conc(s, p, "an address"); Val old = loadTy(s, a, d.ty); Val nv = get(f, d.ops[1]); unsigned w = d.w; switch (R->getOperation()) { case AtomicRMWInst::Add: nv = VE(X.bin(O_ADD, toE(old, w), toE(nv, w))); break; case AtomicRMWInst::Sub: nv = VE(X.bin(O_SUB, toE(old, w), toE(nv, w))); break; case AtomicRMWInst::Xchg: break; default: unsupported(s, "atomicrmw"); } storeTy(s, a, nv, d.ty); f.r[d.dst] = old; f.ip++; return; }
  case ~0u: unsupported(s, "vector instruction");
  default: if (d.opc >= Instruction::BinaryOpsBegin && d.opc < Instruction::BinaryOpsEnd && d.w != 0xFFFF) { Val r = binop(s, d.opc, d.w, get(f, d.ops[0]), get(f, d.ops[1]), d); if (d.w > 64 && !r.e) r = Val{0, X.con(r.c, d.w)}; f.r[d.dst] = r; f.ip++; return; }
    unsupported(s, string("instruction ") + d.I->getOpcodeName());
  }
}

static double tStart; static bool isChild = false;
static void maybeSplit() {
  if (work.empty()) return; int t = sh->tokens.load(); if (t <= 0) return; if (!sh->tokens.compare_exchange_strong(t, t - 1)) return;
  sh->started++; fflush(stdout); pid_t p = fork();
  if (p < 0) { sh->started--; sh->tokens++; return; }
  if (p == 0) { isChild = true; signal(SIGCHLD, SIG_IGN); State* keep = work.front(); for (size_t i = 1; i < work.size(); i++) delete work[i]; work.clear(); work.push_back(keep); cur = nullptr; return; }
  delete work.front(); work.erase(work.begin());
}
static u64 localInst = 0;
static int explore() {
  u64 tick = 0; 
  while (!work.empty()) {
    if (sh->stop) break;
    State* s = work.back(); work.pop_back(); cur = s; bool alive = true;
    if (work.size() > 200000) { sh->incomplete++; }
    try {
      while (true) {
        step(*s); s->steps++; localInst++;
        if ((++tick & 0x3ff) == 0) { if (sh->stop) { alive = true; break; } double t = now(); if (t - tStart > opt.budget) { int z = 0; sh->stop.compare_exchange_strong(z, 1); break; } if (!work.empty() && sh->tokens > 0) { maybeSplit(); if (isChild && cur == nullptr) { /* child: drop the running state */ alive = false; localInst = 0; break; } } }
        if (s->steps > opt.maxSteps) fail(*s, "step-limit", "no termination within " + std::to_string(opt.maxSteps) + " instructions");
      }
      if (alive) { sh->incomplete += 1 + work.size(); delete s; break; }
    } catch (PathEnd&) {
    } catch (Unknown&) { sh->unknownPaths++; if (reported.insert("unk").second) outLine("{\"t\":\"unknown\",\"entry\":" + jesc(entries[s->entry].text) + ",\"msg\":" + jesc(zmsg) + ",\"stack\":" + stackOf(*s) + "}"); }
    if (!(isChild && cur == nullptr)) delete s; else delete s;
  }
  sh->insts += localInst; return 0;
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto val = [&]() { return string(argv[++i]); };
    if (a == "--bc") opt.bc = val(); else if (a == "--out") opt.out = val(); else if (a == "--entry") opt.entries.push_back(val()); else if (a == "-j") opt.jobs = atoi(argv[++i]); else if (a == "--budget") opt.budget = atof(argv[++i]); else if (a == "--max-steps") opt.maxSteps = atoll(argv[++i]); else if (a == "--qtimeout") opt.qTimeoutMs = atoi(argv[++i]); else if (a == "--samples") opt.samples = atoi(argv[++i]); else if (a == "--max-violations") opt.maxViol = atoi(argv[++i]); else if (a == "--repo") opt.repo = val(); else if (a == "--seed") opt.seed = atoll(argv[++i]); else if (a == "--cov") opt.cov = true; else if (a == "--no-undef") opt.checkUndef = false; else if (a == "--no-closure") opt.closure = false; else if (a == "--trace") opt.trace = true; else if (a == "--audit") opt.audit = true; else if (a == "--no-int") opt.intOrder = false; else if (a == "--bv") opt.bvSolver = true; else if (a == "--lin") opt.lin = true; else if (a == "--no-lin") opt.useLin = false; else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; } }
  llvm::SMDiagnostic err; M = llvm::parseIRFile(opt.bc, err, LC); if (!M) { err.print("msym", llvm::errs()); return 2; } DL = &M->getDataLayout();
  outFd = open(opt.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outFd < 0) { perror("out"); return 2; }
  struct rlimit rl = {256u << 20, RLIM_INFINITY}; (void)rl;
  u32 cov = 0; u64 fa = FN_BASE;
  for (auto& F : *M) { Func* f = new Func; f->F = &F; f->name = F.getName().str(); f->addr = fa; fa += 16; f->covBase = cov; cov += F.size(); funcOf[&F] = f; funcAt[f->addr] = f; funcs.push_back(f);
    if (F.isIntrinsic()) f->builtin = intrinsicOf(&F); else { auto it = builtinNames.find(f->name); if (it != builtinNames.end()) f->builtin = it->second; }
    if (auto* sp = F.getSubprogram()) { string p = sp->getFilename().str(); string dir = sp->getDirectory().str(); if (p.size() && p[0] != '/') p = dir + "/" + p; if (p.compare(0, opt.repo.size() + 1, opt.repo + "/") == 0) f->repo = true; } }
  size_t shsz = sizeof(Shared) + cov + 64; sh = (Shared*)mmap(0, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  mkSolver(); rootPid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  // memory image
  State* init = new State; init->model = std::make_shared<Model>(); init->model->stamp = nextStamp++;
  for (auto& G : M->globals()) { u64 n = DL->getTypeAllocSize(G.getValueType()); if (G.isDeclaration() && n < 64) n = 64; u64 a = addrOf(init->mem.add(new Obj(n, K_GLOBAL, false))); globAddr[&G] = a; globAt[a] = &G; if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSi = a; if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVmi = a; }
  for (auto& G : M->globals()) if (G.hasInitializer()) { initBytes(*init, globAddr[&G], G.getInitializer()); if (G.isConstant()) init->mem.wget(globAddr[&G] >> OBJ_SHIFT)->kind = K_CONST; }
  for (auto& e : opt.entries) { EntryCfg c; c.text = e; size_t p = e.find(':'); c.name = e.substr(0, p); if (p != string::npos) { string r = e.substr(p + 1); size_t i = 0; while (i < r.size()) { size_t j = r.find(',', i); if (j == string::npos) j = r.size(); string kv = r.substr(i, j - i); size_t q = kv.find('='); if (q != string::npos) c.params[kv.substr(0, q)] = atol(kv.c_str() + q + 1); i = j + 1; } } auto* F = M->getFunction(c.name); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", c.name.c_str()); return 2; } c.f = funcOf[F]; entries.push_back(c); }
  tStart = now();
  // static constructors run once, concretely
  if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* arr = llvm::dyn_cast<llvm::ConstantArray>(GC->getInitializer())) for (auto& op : arr->operands()) { auto* F = llvm::dyn_cast<llvm::Function>(llvm::cast<llvm::Constant>(op)->getAggregateElement(1)->stripPointerCasts()); if (!F || F->isDeclaration()) continue; u64 before = sh->paths; init->entry = 0; pushCall(*init, funcOf[F], {}); try { while (true) step(*init); } catch (PathEnd&) {} if (sh->paths == before) { fprintf(stderr, "static constructor failed\n"); return 2; } sh->paths = before; sh->samples = 0; }
  if (ftruncate(outFd, 0)) {}
  for (size_t i = entries.size(); i-- > 0;) { State* s = new State(*init); s->entry = i; s->steps = 0; pushCall(*s, entries[i].f, {}); work.push_back(s); }
  sh->tokens = opt.jobs - 1; sh->started = 1;
  explore(); sh->tokens++;
  sh->finished++;
  if (isChild) { 
    close(outFd); _exit(0); }
  // wait for all descendants (reparented to us)
  while (true) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0 && errno == ECHILD) break; }
  double wall = now() - tStart;
  u64 lost = sh->started - sh->finished;
  string fns = "["; bool first = true; u64 rb = 0, rc = 0; std::set<string> names; map<string, std::set<int>> hit, miss;
  for (Func* f : funcs) if (f->repo && !f->F->isDeclaration()) { u64 c = 0; u32 i = 0; for (auto& B : *f->F) { bool h = sh->cov[f->covBase + i]; rb++; if (h) { rc++; c++; } i++; } if (!c) continue; names.insert(shortName(f)); if (opt.cov) { i = 0; for (auto& B : *f->F) { bool h = sh->cov[f->covBase + i]; for (auto& I : B) if (auto& dl = I.getDebugLoc()) { auto* sc = llvm::cast<llvm::DIScope>(dl.getScope()); (h ? hit : miss)[sc->getFilename().str()].insert(dl.getLine()); } i++; } } }
  u64 total = 0; for (auto& n : names) { total++; if (!first) fns += ","; first = false; fns += jesc(n); } fns += "]";
  string covs = ""; if (opt.cov) { covs = ",\"missed\":{"; bool ff = true; for (auto& m : miss) { string l; for (int x : m.second) if (!hit[m.first].count(x)) l += (l.empty() ? "" : ",") + std::to_string(x); if (!ff) covs += ","; ff = false; covs += jesc(m.first) + ":[" + l + "]"; } covs += "}"; }
  string bad = "["; first = true; for (auto& b : badConst) { if (!first) bad += ","; first = false; bad += jesc(b); } bad += "]";
  char buf[2048]; snprintf(buf, sizeof buf, "{\"t\":\"summary\",\"wall\":%.3f,\"stop\":%d,\"paths\":%llu,\"sympaths\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"quick\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"const_asserts\":%llu,\"closure\":%llu,\"closure_asserts\":%llu,\"path_queries\":%llu,\"int_queries\":%llu,\"lin_queries\":%llu,\"solver_s\":%.3f,\"violations\":%llu,\"infeasible\":%llu,\"incomplete\":%llu,\"unsupported\":%llu,\"unknown_paths\":%llu,\"workers\":%llu,\"lost\":%llu,\"max_pc\":%llu,\"repo_blocks\":%llu,\"repo_blocks_hit\":%llu,\"nfuncs\":%llu", wall, (int)sh->stop, (unsigned long long)sh->paths, (unsigned long long)sh->symPaths, (unsigned long long)sh->forks, (unsigned long long)sh->insts, (unsigned long long)sh->queries, (unsigned long long)sh->qsat, (unsigned long long)sh->qunsat, (unsigned long long)sh->qunknown, (unsigned long long)sh->quickHits, (unsigned long long)sh->asserts, (unsigned long long)sh->assertQueries, (unsigned long long)sh->constAsserts, (unsigned long long)sh->closureHits, (unsigned long long)sh->closureAsserts, (unsigned long long)sh->obligQueries, (unsigned long long)sh->intQueries, (unsigned long long)sh->linQueries, sh->solverUs / 1e6, (unsigned long long)sh->viol, (unsigned long long)sh->infeasible, (unsigned long long)sh->incomplete, (unsigned long long)sh->unsupported, (unsigned long long)sh->unknownPaths, (unsigned long long)sh->started, (unsigned long long)lost, (unsigned long long)sh->maxPc, (unsigned long long)rb, (unsigned long long)rc, (unsigned long long)total);
  outLine(string(buf) + ",\"functions\":" + fns + covs + ",\"bad_const\":" + bad + "}");
  return 0;
}
