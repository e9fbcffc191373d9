// Parameters accept exactly their language; a rejected argument changes nothing; printed values are accepted back.
#include "text.h"
#include <mathic/IntegerParameter.h>
#include <mathic/BoolParameter.h>
#include <mathic/StringParameter.h>
#include <mathic/error.h>
static const char* alphabet() { return vs_param("ANY", 0) ? 0 : "09+- x"; }
// the decimal form without superfluous digits of a value that fits an unsigned int
static bool decimal(const std::string& s, uint64_t& v) { v = 0; if (s.empty() || s.size() > 10) return false; bool ok = true; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char)s[i]; ok = ok & (c >= '0') & (c <= '9'); v = v * 10 + (uint64_t)(unsigned char)(c - '0'); } if (s.size() > 1) ok = ok & (s[0] != '0'); return ok & (v <= 0xffffffffu); }
template<class P> static bool accepts(P& p, const std::string& s) { try { p.processArgument(s); return true; } catch (const mathic::MathicException& e) { vs_assert(hasText(e.what(), "nm"), "the error does not name the option"); return false; } }
static void intArg(const std::string& s) { unsigned d = (unsigned)vs_sym("default", 32); mathic::IntegerParameter p("nm", "text", d); vs_assert(p.value() == d, "the default is not the value"); uint64_t v; bool want = decimal(s, v); bool got = accepts(p, s);
  vs_assert(got == want, "an integer parameter accepts exactly the decimal numbers in its range"); vs_assert(p.value() == (got ? (unsigned)v : d), got ? "the number given is stored" : "a rejected argument leaves the value as it was"); vs_assert((unsigned)p == p.value(), "conversion gives another value"); vs_out(p.value()); vs_cover("end"); }
VS_HARNESS(int_param) { intArg(symUpTo(vs_param("LO", 0), vs_param("HI", 3), alphabet())); }
// long arguments: digits only, so that the value is near the largest ones
VS_HARNESS(int_long) { std::string s; unsigned n = vs_param("LO", 9) + vs_choice("length", vs_param("HI", 11) - vs_param("LO", 9) + 1); for (unsigned i = 0; i < n; ++i) { unsigned d = (unsigned)vs_sym("digit", 4); vs_assume(d <= 9); s.push_back((char)('0' + d)); } intArg(s); }
VS_HARNESS(int_back) { unsigned v = (unsigned)vs_sym("number", 32); mathic::IntegerParameter p("nm", "text", 7); if (vs_choice("assign", 2)) p = v; else p.setValue(v); vs_assert(p.value() == v, "a value set is stored"); std::string s = p.valueAsString(); uint64_t w; vs_assert(decimal(s, w), "a value is printed in decimal"); vs_assert(w == v, "a value is printed as another");
  mathic::IntegerParameter q("nm", "text", 7); vs_assert(accepts(q, s), "a printed value is accepted back"); vs_assert(q.value() == v, "a printed value is accepted back as another"); outs(s); vs_cover("end"); }
VS_HARNESS(bool_param) { std::string s = symUpTo(0, vs_param("HI", 4), vs_param("ANY", 0) ? 0 : "onfO1 "); bool d = vs_sym("default", 1) != 0; mathic::BoolParameter p("nm", "text", d); vs_assert(p.value() == d, "the default is not the value"); bool on = s.empty() | eqs(s, "on"), off = eqs(s, "off"); bool got = accepts(p, s);
  vs_assert(got == (on | off), "a boolean parameter accepts exactly its spellings"); vs_assert(p.value() == (got ? on : d), got ? "the value given is stored" : "a rejected argument leaves the value as it was"); vs_out(p.value());
  mathic::BoolParameter q("nm", "text", !p.value()); vs_assert(accepts(q, p.valueAsString()), "a printed value is accepted back"); vs_assert(q.value() == p.value(), "a printed value is accepted back as another"); q = d; vs_assert((bool)q == d, "a value set is stored"); q.setValue(!d); vs_assert(q.value() == !d, "a value set is stored"); vs_cover("end"); }
VS_HARNESS(string_param) { std::string s = symUpTo(0, 3), d = symUpTo(0, 2); mathic::StringParameter p("nm", "text", d); vs_assert(eqs(p.value(), d) & eqs(p.valueAsString(), d), "the default is not the value"); vs_assert(accepts(p, s), "a string parameter accepts everything"); vs_assert(eqs(p.value(), s) & eqs(p.valueAsString(), s) & (p == s), "the string given is stored"); vs_assert((p == d) == eqs(s, d), "comparison with a string is wrong"); p = d; vs_assert(eqs((const std::string&)p, d), "a value set is stored"); p.setValue(s); vs_assert(eqs(p.value(), s), "a value set is stored");
  vs_assert(eqs(p.name(), "nm") & eqs(p.description(), "text"), "name or description changed"); p.appendToDescription(s); vs_assert(eqs(p.description(), "text" + s), "appending to the description is wrong"); outs(p.value()); vs_cover("end"); }
