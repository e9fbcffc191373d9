// Native back end: runs a harness on concrete values against the real library.
// usage: prog            reads lines "entry[:k=v,..] v1 v2 ..." from stdin; each line runs in a forked child
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <new>
#include <ctime>
static std::vector<uint64_t> vals; static size_t pos; static std::map<std::string, long> params; static std::string outs; static int outfd = 1;
struct Reg { const char* n; void (*f)(); }; static Reg regs[512]; static int nregs;
VsReg::VsReg(const char* n, void (*f)()) { regs[nregs].n = n; regs[nregs++].f = f; }
static void emit(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(outfd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } }
static void finish(const char* status, const char* msg) { std::string s = std::string("R ") + status + " [" + outs + "] " + msg + "\n"; emit(s); _exit(0); }
extern "C" {
uint64_t vs_sym(const char*, unsigned bits) { uint64_t v = pos < vals.size() ? vals[pos] : 0; pos++; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void vs_assume(bool b) { if (!b) finish("assume", ""); }
void vs_assert(bool b, const char* m) { if (!b) finish("assert", m); }
void vs_out(uint64_t v) { if (!outs.empty()) outs += ","; outs += std::to_string(v); }
void vs_cover(const char*) {}
long vs_param(const char* n, long d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
uint64_t vs_concretize(uint64_t v) { return v; }
int vs_in_engine() { return 0; }
static int capfd = -1, savefd = -1;
void vs_capture_begin() { fflush(stderr); char n[] = "/tmp/vscapXXXXXX"; capfd = mkstemp(n); unlink(n); savefd = dup(2); dup2(capfd, 2); }
size_t vs_capture_end(char* b, size_t c) { fflush(stderr); dup2(savefd, 2); close(savefd); lseek(capfd, 0, SEEK_SET); size_t n = 0; ssize_t k; while (n < c && (k = read(capfd, b + n, c - n)) > 0) n += k; close(capfd); return n; }
static long clk = -1; void vs_set_clock(long v) { clk = v; }
clock_t clock(void) noexcept { return clk; }
static uint64_t liveBytes; uint64_t vs_live_bytes() { return liveBytes; }
static long failAt = -1; void vs_fail_alloc(long n) { failAt = n; }
}
#ifdef VS_REPLACE_NEW
static void* get(size_t n) { if (failAt >= 0) { if (failAt == 0) { failAt = -1; throw std::bad_alloc(); } failAt--; } char* p = (char*)malloc(n + 16); if (!p) throw std::bad_alloc(); *(size_t*)p = n; liveBytes += n; return p + 16; }
static void put(void* p) { if (p) { char* q = (char*)p - 16; liveBytes -= *(size_t*)q; free(q); } }
void* operator new(size_t n) { return get(n); } void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); } void operator delete[](void* p) noexcept { put(p); } void operator delete(void* p, size_t) noexcept { put(p); } void operator delete[](void* p, size_t) noexcept { put(p); }
#endif
static void runLine(const std::string& line) {
  std::vector<std::string> t; size_t i = 0; while (i < line.size()) { while (i < line.size() && line[i] == ' ') i++; size_t j = i; while (j < line.size() && line[j] != ' ') j++; if (j > i) t.push_back(line.substr(i, j - i)); i = j; }
  if (t.empty()) finish("noentry", ""); std::string e = t[0]; size_t c = e.find(':'); std::string name = e.substr(0, c);
  if (c != std::string::npos) { std::string r = e.substr(c + 1); size_t a = 0; while (a < r.size()) { size_t b = r.find(',', a); if (b == std::string::npos) b = r.size(); std::string kv = r.substr(a, b - a); size_t q = kv.find('='); if (q != std::string::npos) params[kv.substr(0, q)] = atol(kv.c_str() + q + 1); a = b + 1; } }
  for (size_t k = 1; k < t.size(); k++) vals.push_back(strtoull(t[k].c_str(), 0, 10));
  for (int k = 0; k < nregs; k++) if (name == regs[k].n) { alarm(20); regs[k].f(); finish("ok", ""); }
  finish("noentry", "");
}
int main() {
  char* buf = nullptr; size_t cap = 0; ssize_t n; std::vector<std::string> lines; while ((n = getline(&buf, &cap, stdin)) > 0) { std::string s(buf, n); while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) lines.push_back(s); } free(buf);
  outfd = dup(1); dup2(2, 1); // anything the harness prints goes to stderr
  for (auto& l : lines) { pid_t p = fork(); if (p == 0) { runLine(l); _exit(0); } int st = 0; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { char b[64]; if (WIFSIGNALED(st)) snprintf(b, 64, "R crash [] signal %d\n", WTERMSIG(st)); else snprintf(b, 64, "R crash [] exit %d\n", WEXITSTATUS(st)); emit(b); }
    emit("E\n"); }
  return 0; }
