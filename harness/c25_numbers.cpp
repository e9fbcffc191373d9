// Number formatting: the text stands for the number, to the documented precision.
#include "text.h"
#include <mathic/ColumnPrinter.h>
typedef mathic::ColumnPrinter P; typedef unsigned __int128 wide;
// an arbitrary number of BITS bits, times 2^SHIFT, plus a base: BASE, or 1000^P1K, 1024^P1M minus OFF
static uint64_t number(const char* n) { uint64_t v = vs_sym(n, vs_param("BITS", 64)) << vs_param("SHIFT", 0); uint64_t b = (uint64_t)vs_param("BASE", 0); for (long i = 0; i < vs_param("P10", 0); ++i) b = (b ? b : 1) * 10; for (long i = 0; i < vs_param("P2", 0); ++i) b = (b ? b : 1) * 2; return v + b - (uint64_t)vs_param("OFF", 0); }
// digits of a decimal number without superfluous zeros, from position at
static uint64_t digits(const std::string& s, size_t from, size_t to) { uint64_t v = 0; bool ok = to > from && to - from <= 20; for (size_t i = from; i < to; ++i) { ok = ok & (s[i] >= '0') & (s[i] <= '9'); v = v * 10 + (uint64_t)(unsigned char)(s[i] - '0'); } if (to - from > 1) ok = ok & (s[from] != '0'); vs_assert(ok, "not a decimal number"); return v; }
static size_t find(const std::string& s, char c) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == c) return i; return s.size(); }
// tenths in a number of the form 12.3, from the start up to the given position
static uint64_t tenths(const std::string& s, size_t to) { size_t dot = find(s, '.'); if (dot + 2 != to) { vs_assert(false, "not a number with one decimal"); return 0; } return digits(s, 0, dot) * 10 + digits(s, dot + 1, to); }
VS_HARNESS(commas) { uint64_t l = number("n"); std::string s = P::commafy(l); std::string plain; size_t k = 0; bool ok = true; for (size_t i = s.size(); i-- > 0;) { if (k % 4 == 3) ok = ok & (s[i] == ','); else plain.insert(plain.begin(), s[i]); ++k; }
  vs_assert(ok, "digits are not grouped in threes"); vs_assert(k % 4 != 0, "a separator comes first"); vs_assert(plain.size() <= 20, "too many digits"); vs_assert(digits(plain, 0, plain.size()) == l, "another number is printed"); outs(s); vs_cover("end"); }
static void scaled(uint64_t l, const std::string& s, uint64_t step, const char* units, size_t tail, const char* plainTail) {
  if (l < step) { size_t n = s.size() - (plainTail ? 1 : 0); if (plainTail) vs_assert(s[n] == plainTail[0], "the unit is missing"); vs_assert(digits(s, 0, n) == l, "another number is printed"); return; }
  vs_assert(s.size() > tail + 2, "the text is too short"); char u = s[s.size() - tail]; if (tail == 2) vs_assert(s[s.size() - 1] == 'B', "the unit is not bytes"); unsigned k = 0; while (k < 4 && units[k] != u) ++k; vs_assert(k < 4, "the unit is not a known one"); if (k >= 4) return;
  wide unit = 1; for (unsigned i = 0; i <= k; ++i) unit *= step; uint64_t t = tenths(s, s.size() - tail);
  wide shown = (wide)t * unit, real = (wide)l * 10, slack = unit / 2 + (real >> 50) + 1; vs_assert((shown <= real + slack) & (real <= shown + slack), "the number shown is not the number rounded to one decimal");
  vs_assert((t < step * 10) | (k == 3), "a larger unit should have been used"); vs_assert(t >= 10, "a smaller unit should have been used"); }
VS_HARNESS(si_prefix) { uint64_t l = number("n"); std::string s = P::withSIPrefix(l); scaled(l, s, 1000, "kMGT", 1, 0); outs(s); vs_cover("end"); }
VS_HARNESS(bytes_unit) { uint64_t l = number("n"); std::string s = P::bytesInUnit(l); scaled(l, s, 1024, "kMGT", 2, "B"); outs(s); vs_cover("end"); }
// ---- quotients: the text is the quotient rounded to one decimal
// shown / 10 is num * by / den rounded to one decimal, all without sign
static void rounded(uint64_t shown, uint64_t num, unsigned by, uint64_t den) { wide real = (wide)num * (by * 10), lhs = (wide)shown * den, half = (wide)(den / 2) + 1; vs_assert((lhs << 50) <= (real << 50) + (half << 50) + real, "the number shown is more than the quotient rounded to one decimal"); vs_assert((real << 50) <= (lhs << 50) + (half << 50) + real, "the number shown is less than the quotient rounded to one decimal"); }
static uint64_t denominator() { static const uint64_t d[] = {0, 1, 2, 3, 7, 10, 100, 999, 1000, 65536, 1000003, 4294967296ull, 1000000000000ull, 9223372036854775807ull, 18446744073709551615ull}; long k = vs_param("DEN", -1); return d[k >= 0 ? k : vs_choice("denominator", 15)]; }
static void zeroDen(const std::string& s, bool zero, size_t at, const char* tail) { vs_assert(eqs(s, std::string(at, ' ') + (zero ? "0/0" : "?/0") + tail), "a zero denominator is not marked"); outs(s); vs_cover("zero"); vs_cover("end"); }
// quotients beyond 9 * 10^17 are left aside
static uint64_t small(uint64_t n, uint64_t d, unsigned by) { vs_assume((wide)n < (wide)d * (900000000000000000ull / by)); return n; }
static void tail(const std::string& s, size_t& z) { vs_assert(z > 0 && s[z - 1] == '%', "the percent sign is missing"); if (z) --z; }
static std::string cut(const std::string& s, size_t from, size_t to) { std::string t; for (size_t i = from; i < to; ++i) t.push_back(s[i]); return t; }
VS_HARNESS(percent_int) { uint64_t n = number("n"), d = denominator(); std::string s = P::percentInteger(d ? small(n, d, 100) : n, d); if (!d) { zeroDen(s, n == 0, 0, "%"); return; } size_t z = s.size(); tail(s, z); rounded(tenths(s, z), n, 100, d); outs(s); vs_cover("end"); }
VS_HARNESS(percent_fixed) { uint64_t n = number("n"), d = denominator(); std::string s = P::percentIntegerFixed(d ? small(n, d, 100) : n, d); if (!d) { zeroDen(s, n == 0, 2, "%"); return; } size_t z = s.size(), f = 0; while (f < z && s[f] == ' ') ++f; vs_assert(z >= 6, "a short percentage is not padded"); vs_assert(f == 0 || z == 6, "a percentage is padded too much"); tail(s, z); std::string t = cut(s, f, z); rounded(tenths(t, t.size()), n, 100, d); outs(s); vs_cover("end"); }
VS_HARNESS(ratio_int) { uint64_t n = number("n"), d = denominator(); std::string s = P::ratioInteger(d ? small(n, d, 1) : n, d); if (!d) { zeroDen(s, n == 0, 0, ""); return; } rounded(tenths(s, s.size()), n, 1, d); outs(s); vs_cover("end"); }
// doubles: any 63-bit integer over a power of two, of either sign
static double dyadic(bool& neg, uint64_t& num, uint64_t& den, uint64_t most) { static const unsigned sh[] = {0, 1, 2, 10, 30, 62}; unsigned k = sh[vs_param("DEN", -1) >= 0 ? vs_param("DEN", -1) : vs_choice("scale", 6)]; den = (uint64_t)1 << k; num = number("n"); vs_assume((wide)num < (wide)den * most); neg = vs_choice("negative", 2) != 0; double x = (double)num / (double)den; return neg ? -x : x; }
// a minus sign exactly for negative numbers
static std::string unsign(const std::string& s, size_t z, bool neg, uint64_t num) { bool sign = z > 0 && s[0] == '-'; vs_assert(sign == (neg & (num != 0)), "the sign is wrong"); return cut(s, sign ? 1 : 0, z); }
VS_HARNESS(one_decimal) { bool neg; uint64_t n, d; double x = dyadic(neg, n, d, 900000000000000000ull); std::string s = P::oneDecimal(x), t = unsign(s, s.size(), neg, n); rounded(tenths(t, t.size()), n, 1, d); outs(s); vs_cover("end"); }
VS_HARNESS(percent_double) { bool neg; uint64_t n, d; double x = dyadic(neg, n, d, 9000000000000000ull); std::string s = P::percentDouble(x); size_t z = s.size(); tail(s, z); std::string t = unsign(s, z, neg, n); rounded(tenths(t, t.size()), n, 100, d); outs(s); vs_cover("end"); }
VS_HARNESS(ratio_double) { static const double ds[] = {0.0, 1.0, -1.0, 3.0, -7.0, 1000.0, 0.5, 1e-12, -1e-12}; static const uint64_t di[] = {0, 1, 1, 3, 7, 1000, 1, 0, 0}; unsigned k = vs_param("DEN", -1) >= 0 ? vs_param("DEN", -1) : vs_choice("denominator", 9); uint64_t n = number("n"); vs_assume(n < 4000000000000000ull); bool neg = vs_choice("negative", 2) != 0, percent = vs_choice("percent", 2) != 0; double x = neg ? -(double)n : (double)n; std::string s = percent ? P::percentDouble(x, ds[k]) : P::ratioDouble(x, ds[k]);
  if (k == 0 || k > 6) { zeroDen(s, n == 0, 0, percent ? "%" : ""); return; } size_t z = s.size(); if (percent) tail(s, z); std::string t = unsign(s, z, neg != (ds[k] < 0), n); rounded(tenths(t, t.size()), n, (percent ? 100 : 1) * (k == 6 ? 2 : 1), di[k]); outs(s); vs_cover("end"); }
