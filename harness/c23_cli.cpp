// Command lines, against a description of how the words are to be understood.
#include "text.h"
#include <mathic/CliParser.h>
#include <mathic/CliParameter.h>
#include <mathic/HelpAction.h>
#include <mathic/IntegerParameter.h>
#include <mathic/BoolParameter.h>
#include <mathic/StringParameter.h>
#include <mathic/error.h>
using namespace mathic;
// what happened while parsing
static std::vector<std::pair<unsigned, std::string> > given; // which option got which argument
static std::vector<std::string> direct; static unsigned directCalls; static bool directLate; static CliParser* toldParser;
struct Param : CliParameter { unsigned id; Param(const std::string& n, unsigned i) : CliParameter(n, "d" + n), id(i) {} std::string argumentType() const { return "T"; } std::string valueAsString() const { return "V"; } void processArgument(const std::string& a) { given.push_back(std::make_pair(id, a)); } };
static const char* const optionNames[5][4] = {{"a", "ab", "b", "ba"}, {"ab", "aa", "b", "bb"}, {"a", "b", 0, 0}, {"aba", "abb", "a", "-a"}, {"", "a", "aa", 0}};
static unsigned optionSet; static bool takesDirect; // taken by the actions made
template<unsigned I> struct Act : Action {
  std::vector<std::unique_ptr<Param> > p;
  Act() { for (unsigned i = 0; i < 4; ++i) if (optionNames[optionSet][i]) p.emplace_back(new Param(optionNames[optionSet][i], i)); }
  void directOptions(std::vector<std::string> t, CliParser& c) { ++directCalls; direct = t; toldParser = &c; directLate = !given.empty(); if (!takesDirect) Action::directOptions(t, c); }
  void performAction() {} const char* name() const { return "nm"; } const char* description() const { return "desc"; } const char* shortDescription() const { return "short"; }
  void pushBackParameters(std::vector<CliParameter*>& v) { for (size_t i = 0; i < p.size(); ++i) v.push_back(p[i].get()); }
};
static const char* const actionNames[4][3] = {{"a", "ab", "b"}, {"ab", "aa", "ba"}, {"b", "bab", "bb"}, {"", "a", "b"}};
static int actionId(Action* a) { if (dynamic_cast<Act<0>*>(a)) return 0; if (dynamic_cast<Act<1>*>(a)) return 1; if (dynamic_cast<Act<2>*>(a)) return 2; return -1; }
enum { Ok, Unknown, Ambiguous, Error, Internal };
// which of the names a word stands for
static unsigned resolve(const char* const* names, unsigned n, const std::string& w, unsigned& which) { unsigned hits = 0; for (unsigned i = 0; i < n; ++i) if (names[i]) { if (eqs(names[i], w)) { which = i; return Ok; } if (prefixOf(w, names[i])) { ++hits; which = i; } } return hits == 1 ? Ok : hits ? Ambiguous : Unknown; }
static unsigned run(CliParser& c, const std::vector<std::string>& words, std::unique_ptr<Action>& a, std::string& msg) {
  try { if (vs_param("ARGV", 0) && vs_choice("argv", 2)) { std::vector<char*> v; for (auto& w : words) v.push_back(const_cast<char*>(w.c_str())); a = c.parse((int)words.size(), v.data()); } else a = c.parse(words); return Ok; }
  catch (const UnknownNameException& e) { msg = e.what(); return Unknown; } catch (const AmbiguousNameException& e) { msg = e.what(); return Ambiguous; } catch (const MathicException& e) { msg = e.what(); return Error; } catch (const std::logic_error& e) { return Internal; } }
static void compare(CliParser& c, const std::vector<std::string>& words, const char* const* names) {
  // what is wanted
  unsigned want = Ok, act = 0; std::string culprit; std::vector<std::string> rest, wantDirect; std::vector<std::pair<unsigned, std::string> > wantGiven;
  if (words.empty()) want = Unknown; else { want = resolve(names, 3, words[0], act); if (want != Ok) culprit = words[0]; }
  bool dash = false;
  if (want == Ok) { for (size_t i = 1; i < words.size(); ++i) if (!words[i].empty()) { if (words[i][0] == '-') dash = true; if (dash) rest.push_back(words[i]); else wantDirect.push_back(words[i]); }
    if (!wantDirect.empty() && !takesDirect) { want = Error; culprit = wantDirect[0]; } }
  for (size_t i = 0; want == Ok && i < rest.size(); ++i) {
    if (rest[i][0] != '-') { want = Error; culprit = rest[i]; break; }
    unsigned o = 0; std::string w(rest[i].begin() + 1, rest[i].end()); want = resolve(optionNames[optionSet], 4, w, o); if (want != Ok) { culprit = w; break; }
    std::string arg; if (i + 1 < rest.size() && rest[i + 1][0] != '-') arg = rest[++i]; wantGiven.push_back(std::make_pair(o, arg)); }
  given.clear(); direct.clear(); directCalls = 0; toldParser = 0; std::unique_ptr<Action> a; std::string msg; unsigned got = run(c, words, a, msg);
  vs_assert((got == Ok) == (want == Ok), want == Ok ? "a good command line is refused" : "a bad command line is accepted"); vs_assert(got == want, "the wrong kind of error is reported"); vs_out(got);
  if (got == Ok) { vs_assert(a.get() != 0 && actionId(a.get()) == (int)act, "another action is selected"); vs_assert(!a->isHelpAction(), "an action claims to be help"); vs_assert(directCalls == 1 && !directLate && toldParser == &c, "direct parameters are not handed over once"); vs_assert(direct.size() == wantDirect.size(), "the number of direct parameters is wrong"); for (size_t i = 0; i < direct.size() && i < wantDirect.size(); ++i) vs_assert(eqs(direct[i], wantDirect[i]), "a direct parameter is another word");
    vs_assert(given.size() == wantGiven.size(), "the number of options processed is wrong"); for (size_t i = 0; i < given.size() && i < wantGiven.size(); ++i) { vs_assert(given[i].first == wantGiven[i].first, "another option is processed"); vs_assert(eqs(given[i].second, wantGiven[i].second), "an option is given another argument"); vs_out(given[i].first); outs(given[i].second); } vs_cover("accepted"); }
  else { vs_assert(!a.get(), "an action is returned in spite of an error"); vs_assert(hasText(msg, culprit), "the error does not say which word was not understood"); vs_cover("refused"); }
  vs_cover("end"); }
static std::string word(const char* alphabet) { unsigned lo = vs_param("LO", 0); return symUpTo(lo, vs_param("HI", 2), alphabet); }
static const char* letters() { return vs_param("ANY", 0) ? 0 : vs_param("LETTERS", 0) ? "-a" : "-ab"; }
static void registerAll(CliParser& c, const char* const* n) { c.registerAction<Act<0> >(n[0]); c.registerAction<Act<1> >(n[1]); c.registerAction<Act<2> >(n[2]); }
static void setUp() { optionSet = vs_param("SET", -1) < 0 ? vs_choice("options", 5) : vs_param("SET", -1); takesDirect = vs_param("DIRECT", -1) < 0 ? vs_choice("takes direct", 2) : vs_param("DIRECT", -1); }
// arbitrary first word and up to N - 1 arbitrary ones
VS_HARNESS(cli) { setUp(); unsigned s = vs_param("ACTS", -1) < 0 ? vs_choice("actions", 4) : vs_param("ACTS", -1); CliParser c; registerAll(c, actionNames[s]); std::vector<std::string> w; unsigned n = vs_param("MIN", 0) + vs_choice("words", vs_param("N", 2) - vs_param("MIN", 0) + 1); for (unsigned i = 0; i < n; ++i) w.push_back(word(letters())); compare(c, w, actionNames[s]); }
// a known action and N arbitrary words
VS_HARNESS(cli_args) { setUp(); CliParser c; registerAll(c, actionNames[0]); std::vector<std::string> w; w.push_back("ab"); for (long i = 0; i < vs_param("N", 2); ++i) w.push_back(word(letters())); compare(c, w, actionNames[0]); }
// many words, each one of a few kinds
VS_HARNESS(cli_long) { setUp(); CliParser c; registerAll(c, actionNames[0]); std::vector<std::string> w; w.push_back("b"); unsigned words = vs_param("N", 4); for (unsigned i = 0; i < words; ++i) switch (vs_choice("word", vs_param("KINDS", 6))) { case 0: w.push_back("-a"); break; case 1: w.push_back(symString(1, letters())); break; case 2: w.push_back("-b"); break; case 3: w.push_back(""); break; case 4: w.push_back("-" + symString(1, letters())); break; case 5: w.push_back("--"); break; } compare(c, w, actionNames[0]); }
// the same parser again
VS_HARNESS(cli_again) { setUp(); CliParser c; registerAll(c, actionNames[0]); for (int k = 0; k < 2; ++k) { std::vector<std::string> w; w.push_back(vs_choice("first", 2) ? "ab" : "a"); w.push_back(word(letters())); if (k) w.push_back("-b"); compare(c, w, actionNames[0]); } }
// the parameters of the library, several of them in one command line
struct Real : Action { IntegerParameter num; BoolParameter flag; StringParameter text; Real() : num("number", "numd", 7), flag("flag", "flagd", false), text("text", "textd", "init") {} void performAction() {} const char* name() const { return "real"; } const char* description() const { return "long words"; } const char* shortDescription() const { return "brief"; } void pushBackParameters(std::vector<CliParameter*>& v) { v.push_back(&num); v.push_back(&flag); v.push_back(&text); } static const char* staticName() { return "real"; } };
VS_HARNESS(cli_values) {
  CliParser c; c.registerAction<Real>(); std::vector<std::string> w; w.push_back("re"); unsigned num = 7; bool flag = false; std::string text = "init"; bool bad = false; unsigned n = vs_param("N", 2);
  for (unsigned i = 0; i < n && !bad; ++i) switch (vs_choice("option", 3)) {
    case 0: { std::string a = symUpTo(0, vs_param("HI", 2), "07x"); w.push_back(vs_choice("short", 2) ? "-n" : "-number"); w.push_back(a); unsigned v = 0; bool ok = !a.empty(); for (size_t j = 0; j < a.size(); ++j) { if (a[j] == 'x') ok = false; v = v * 10 + (unsigned)(a[j] - '0'); } if (a.size() > 1 && a[0] == '0') ok = false; if (ok) num = v; else bad = true; break; }
    case 1: { unsigned k = vs_choice("flag", 4); w.push_back("-flag"); if (k) w.push_back(k == 1 ? "on" : k == 2 ? "off" : "of"); if (k == 3) bad = true; else flag = k != 2; break; }
    case 2: { std::string a = symUpTo(0, vs_param("HI", 2), "a b"); w.push_back("-t"); w.push_back(a); text = a; break; } }
  std::unique_ptr<Action> a; std::string msg; unsigned got = run(c, w, a, msg); vs_assert(got == (bad ? Error : Ok), bad ? "a bad value is accepted" : "a good command line is refused"); vs_out(got);
  if (got == Ok) { Real* r = dynamic_cast<Real*>(a.get()); vs_assert(r != 0, "another action is selected"); if (r) { vs_assert(r->num.value() == num, "the number given is not the one stored"); vs_assert(r->flag.value() == flag, "the flag given is not the one stored"); vs_assert(eqs(r->text.value(), text), "the text given is not the one stored"); vs_out(num); } }
  vs_cover("end"); }
// help: lists every action, or describes the one named
struct HelpLike : HelpAction { const std::string& t() const { return topic(); } static const char* staticName() { return "hl"; } };
template<unsigned I> struct Named : Act<I> { const char* name() const { static const char n[2] = {(char)('p' + I), 0}; return n; } const char* description() const { static const char n[6] = {'l', 'o', 'n', 'g', (char)('p' + I), 0}; return n; } const char* shortDescription() const { static const char n[6] = {'b', 'r', 'i', 'e', (char)('p' + I), 0}; return n; } static const char* staticName() { static const char n[2] = {(char)('p' + I), 0}; return n; } };
VS_HARNESS(cli_help) {
  optionSet = vs_param("SET", 0); takesDirect = true; CliParser c; c.registerAction<Named<0> >(); c.registerAction<Named<1> >(); c.registerHelpAction("before", "after"); c.registerAction<HelpLike>(); vs_assert(eqs(c.helpPreMessage(), "before") & eqs(c.helpPostMessage(), "after"), "the messages of help are others");
  std::vector<std::string> names; c.pushBackRegisteredActionNames(names); vs_assert(names.size() == 4, "the number of actions is wrong"); bool p = false, q = false, h = false; for (auto& s : names) { p = p | eqs(s, "p"); q = q | eqs(s, "q"); h = h | eqs(s, "help"); } vs_assert(p & q & h, "an action is not listed");
  std::vector<std::string> w; w.push_back(vs_choice("first", 2) ? "help" : "he"); unsigned n = vs_choice("words", 3); for (unsigned i = 0; i < n; ++i) w.push_back(word("pqrh-")); std::vector<std::string> left; bool dash = false; for (unsigned i = 1; i <= n; ++i) if (!w[i].empty()) { if (w[i][0] == '-') dash = true; left.push_back(w[i]); }
  unsigned want = Ok; size_t directs = 0; while (directs < left.size() && left[directs][0] != '-') ++directs; if (directs > 1) want = Error; else if (dash) want = Unknown;
  std::unique_ptr<Action> a; std::string msg; unsigned got = run(c, w, a, msg); vs_assert(got == want, want == Ok ? "a good command line is refused" : "a bad command line is accepted"); vs_out(got);
  if (got == Ok && a.get()) { vs_assert(a->isHelpAction(), "help is not the help action"); std::string topic = left.empty() ? "" : left[0]; static const char* const all[4] = {"p", "q", "help", "hl"}; unsigned which = 0, to = topic.empty() ? Ok : resolve(all, 4, topic, which);
    vs_capture_begin(); unsigned shown = Ok; try { a->performAction(); } catch (const UnknownNameException&) { shown = Unknown; } catch (const AmbiguousNameException&) { shown = Ambiguous; } static char buf[4096]; size_t k = vs_capture_end(buf, sizeof buf); std::string text(buf, k); vs_assert(shown == to, "help on a name resolves to something else");
    if (shown == Ok) { if (topic.empty()) { vs_assert(hasText(text, "before") && hasText(text, "after"), "a message of help is missing"); vs_assert(hasText(text, " p - briep") && hasText(text, " q - brieq") && hasText(text, "help - "), "an action is not shown"); vs_assert(!hasText(text, "longp"), "help shows too much"); }
      else if (which < 2) { vs_assert(hasText(text, which ? "longq" : "longp"), "the description is not shown"); vs_assert(!hasText(text, which ? "longp" : "longq"), "another action is described"); for (unsigned i = 0; i < 4; ++i) if (optionNames[optionSet][i]) { std::string o = optionNames[optionSet][i]; vs_assert(hasText(text, " -" + o + " T") && hasText(text, "default is V") && hasText(text, "   d" + o), "an option is not described"); } }
      else vs_assert(hasText(text, "help"), "help does not describe itself"); outs(text); } }
  vs_cover("end"); }
