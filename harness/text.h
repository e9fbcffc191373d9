// Arbitrary short strings, and string comparison that does not depend on the library under test.
#pragma once
#include <vs.h>
#include <string>
#include <vector>
// an arbitrary string of exactly n characters; each is one of the given alphabet, or any non-zero byte
static inline char symChar(const char* alphabet) { if (alphabet) { unsigned k = 0; while (alphabet[k]) ++k; unsigned b = 1; while ((1u << b) < k) ++b; unsigned v = (unsigned)vs_sym("letter", b); vs_assume(v < k); char c = alphabet[0]; for (unsigned i = 1; i < k; ++i) c = (char)(v == i ? alphabet[i] : c); return c; }
  char c = (char)vs_sym("char", 8); vs_assume(c != 0); return c; }
static inline std::string symString(unsigned n, const char* alphabet = 0) { std::string s; for (unsigned i = 0; i < n; ++i) s.push_back(symChar(alphabet)); return s; }
static inline std::string symUpTo(unsigned lo, unsigned hi, const char* alphabet = 0) { return symString(lo + vs_choice("length", hi - lo + 1), alphabet); }
static inline bool eqs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
static inline bool prefixOf(const std::string& p, const std::string& s) { if (p.size() > s.size()) return false; bool r = true; for (size_t i = 0; i < p.size(); ++i) r = r & (p[i] == s[i]); return r; }
// byte order, shorter first
static inline bool lessEq(const std::string& a, const std::string& b) { bool r = a.size() <= b.size(); size_t n = a.size() < b.size() ? a.size() : b.size(); for (size_t i = n; i-- > 0;) { unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i]; r = (x < y) | ((x == y) & r); } return r; }
static inline bool hasText(const std::string& s, const std::string& t) { for (size_t i = 0; i + t.size() <= s.size(); ++i) { bool r = true; for (size_t j = 0; j < t.size(); ++j) r = r & (s[i + j] == t[j]); if (r) return true; } return false; }
static inline void outs(const std::string& s) { vs_out(s.size()); for (size_t i = 0; i < s.size(); ++i) vs_out((unsigned char)s[i]); }
