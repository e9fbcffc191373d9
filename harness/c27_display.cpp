// Wrapping of displayed text, against a description of what the output is.
#include "text.h"
#include <mathic/display.h>
#include <mathic/error.h>
static const size_t Width = 79;
static bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
// what is to be printed: every line of the message on its own, cut between words only where the next word does not fit
static std::string wanted(const std::string& msg, const std::string& prefix) {
  std::string out; size_t i = 0;
  while (i < msg.size()) {
    size_t e = i; while (e < msg.size() && msg[e] != '\n') ++e; // the line is [i, e)
    size_t w = i; while (w < e && blank(msg[w])) ++w;
    std::string margin = prefix; for (size_t j = i; j < w; ++j) margin.push_back(msg[j]);
    out += margin; size_t used = margin.size(), gap = w; bool first = true;
    while (w < e) { // the next word is [w, z), the blanks before it [gap, w)
      size_t z = w; while (z < e && !blank(msg[z])) ++z;
      if (!first && used + (z - gap) > Width) { out.push_back('\n'); out += margin; used = margin.size(); } else { for (size_t j = gap; j < w; ++j) out.push_back(msg[j]); used += w - gap; }
      for (size_t j = w; j < z; ++j) out.push_back(msg[j]); used += z - w; first = false; gap = z; w = z; while (w < e && blank(msg[w])) ++w; }
    if (!first || e < msg.size()) out.push_back('\n'); // a last line of blanks is not ended
    i = e + 1; }
  return out; }
static std::string fill(const char* name, char c) { long lo = vs_param(name, 0); std::string n2 = name; n2 += "H"; long hi = vs_param(n2.c_str(), lo); return std::string(lo + vs_choice("size", hi - lo + 1), c); }
static std::string any(const char* name) { return symUpTo(vs_param("MIN", 0), vs_param(name, 0), vs_param("ANY", 0) ? 0 : "b \n\t"); }
static std::string message() { std::string m = fill("A", 'x'); m += any("S"); m += fill("B", 'y'); m += any("T"); m += fill("C", 'z'); return m; }
static void compare(const std::string& want) { static char buf[4096]; size_t n = vs_capture_end(buf, sizeof buf); vs_assert(n < sizeof buf, "too much is printed"); std::string got(buf, n); vs_assert(got.size() == want.size(), "the text printed has another length"); vs_assert(eqs(got, want), "another text is printed"); outs(got); vs_cover("end"); }
VS_HARNESS(show) { std::string m = message(), p = fill("P", '>'); vs_capture_begin(); if (p.empty() && vs_choice("default", 2)) mathic::display(m); else mathic::display(m, p); compare(wanted(m, p)); }
VS_HARNESS(show_kinds) { std::string m = message(); vs_capture_begin(); switch (vs_choice("call", 4)) { case 0: mathic::displayNote(m); compare(wanted("NOTE: " + m + "\n", "")); break; case 1: mathic::displayError(m); compare(wanted("ERROR: " + m + "\n", "")); break; case 2: mathic::displayInternalError(m); compare(wanted("INTERNAL ERROR: " + m + "\n", "")); break;
  case 3: try { mathic::reportError(m); } catch (const mathic::MathicException& e) { mathic::displayException(e); compare(wanted(e.what(), "")); vs_assert(hasText(e.what(), m), "the message is not in the exception"); } break; } }
