// Timer: the elapsed time printed adds up to the elapsed milliseconds.
#include "text.h"
#include <mathic/Timer.h>
#include <sstream>
#include <ctime>
// clock readings: the start is any of a few times the clock may show, the span any number of BITS bits
static uint64_t span() { uint64_t v = vs_sym("span", vs_param("BITS", 58)) + (uint64_t)vs_param("BASE", 0); return v; }
static long startTime() { static const long t[] = {0, 1, 999999, 123456789, 4294967296, 1000000000000000}; return t[vs_choice("start", vs_param("STARTS", 6))]; }
// the number of milliseconds nearest to a number of clock ticks, as |1000 t - ms * CLOCKS| <= CLOCKS/2 (and what double precision leaves)
static void nearest(uint64_t ms, uint64_t ticks) { typedef unsigned __int128 wide; wide real = (wide)ticks * 1000, shown = (wide)ms * CLOCKS_PER_SEC, slack = CLOCKS_PER_SEC / 2; vs_assert((shown << 50) <= (real << 50) + (slack << 50) + real, "more time than elapsed"); vs_assert((real << 50) <= (shown << 50) + (slack << 50) + real, "less time than elapsed"); }
// the exact number where double precision is ample
static void exact(uint64_t ms, uint64_t ticks) { vs_assert((ms * 1000 <= ticks + 500) & (ticks <= ms * 1000 + 500), "milliseconds are not rounded to the nearest"); }
static uint64_t number(const std::string& s, size_t& i, size_t& len) { size_t from = i; uint64_t v = 0; bool z = false; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (uint64_t)(unsigned char)(s[i] - '0'); ++i; } len = i - from; if (len > 1) z = s[from] == '0'; if (z && len != 3) vs_assert(false, "a number starts with a zero"); vs_assert(len > 0 && len <= 20, "a number is missing"); return v; }
// [Hh][Mm]S.mmms; returns milliseconds
static uint64_t parse(const std::string& s) {
  size_t i = 0, n; uint64_t v = number(s, i, n), h = 0, m = 0, sec; bool hasH = false, hasM = false;
  if (i < s.size() && s[i] == 'h') { hasH = true; h = v; ++i; v = number(s, i, n); }
  if (i < s.size() && s[i] == 'm') { hasM = true; m = v; ++i; v = number(s, i, n); }
  sec = v; vs_assert(i < s.size() && s[i] == '.', "seconds are not followed by a point"); ++i; uint64_t ms = number(s, i, n); vs_assert(n == 3, "milliseconds do not have three digits"); vs_assert(i + 1 == s.size() && s[i] == 's', "the time does not end in s");
  vs_assert((ms < 1000) & (sec < 60) & (m < 60), "a field reaches its carry"); vs_assert(!hasH || h != 0, "zero hours are shown"); vs_assert(hasM || !hasH, "minutes are left out between hours and seconds"); vs_assert(!hasM | (m != 0) | hasH, "zero minutes are shown");
  return ((h * 60 + m) * 60 + sec) * 1000 + ms; }
static void setUp(mathic::Timer& t, uint64_t& d) { long s = startTime(); vs_set_clock(s); if (vs_choice("reset", 2)) t.reset(); else t = mathic::Timer(); d = span(); vs_set_clock(s + (long)d); }
VS_HARNESS(timer_ms) { mathic::Timer t; uint64_t d; setUp(t, d); uint64_t ms = t.getMilliseconds(); if (vs_param("BITS", 58) <= 40) exact(ms, d); else nearest(ms, d); vs_out(ms); vs_cover("end"); }
VS_HARNESS(timer_stream) { mathic::Timer t; uint64_t d; setUp(t, d); std::ostringstream o; if (vs_choice("operator", 2)) o << t; else t.print(o); std::string s = o.str(); uint64_t ms = parse(s); vs_assert(ms == t.getMilliseconds(), "the time printed is not the elapsed time"); outs(s); vs_cover("end"); }
VS_HARNESS(timer_file) { mathic::Timer t; uint64_t d; setUp(t, d); vs_capture_begin(); t.print(stderr); char buf[64]; size_t n = vs_capture_end(buf, sizeof buf); std::string s; vs_assert(n >= 3 && buf[0] == '(' && buf[n - 1] == ')', "the time is not in parentheses"); if (n < 3) return; for (size_t i = 1; i + 1 < n; ++i) s.push_back(buf[i]); uint64_t ms = parse(s); vs_assert(ms == t.getMilliseconds(), "the time printed is not the elapsed time"); outs(s); vs_cover("end"); }
