// Printed tables, against a description of the table that is built alongside.
#include "text.h"
#include <mathic/ColumnPrinter.h>
#include <sstream>
using mathic::ColumnPrinter;
// what a column holds: its ended lines, each with the character that fills it up, and the line being written
struct Cell { std::string text; char pad; };
struct Column { bool left; std::string before, after; std::vector<Cell> cells; std::string open; };
static std::vector<Column> cols; static std::string margin;
static void put(Column& c, const std::string& s) { for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n') { c.cells.push_back(Cell{c.open, ' '}); c.open.clear(); } else c.open.push_back(s[i]); } }
static void fillUp(Column& c, char pad) { c.cells.push_back(Cell{c.open, pad}); c.open.clear(); }
static std::string wanted() {
  std::vector<std::vector<Cell>> all; size_t rows = 0; std::vector<size_t> width;
  for (auto& c : cols) { auto v = c.cells; if (!c.open.empty()) v.push_back(Cell{c.open, ' '}); if (v.size() > rows) rows = v.size(); size_t w = 0; for (auto& x : v) if (x.text.size() > w) w = x.text.size(); width.push_back(w); all.push_back(v); }
  std::string out;
  for (size_t r = 0; r < rows; ++r) { out += margin; for (size_t k = 0; k < cols.size(); ++k) { Cell x = r < all[k].size() ? all[k][r] : Cell{"", ' '}; std::string fill(width[k] - x.text.size(), x.pad); out += cols[k].before; out += cols[k].left ? x.text + fill : fill + x.text; out += cols[k].after; } out.push_back('\n'); }
  return out; }
static const char* alphabet() { return vs_param("ANY", 0) ? 0 : "b \n"; }
static char padding() { if (!vs_param("PADANY", 0)) return vs_choice("padding", 2) ? '-' : '='; char c = (char)vs_sym("pad", 8); vs_assume((c != 0) & (c != '\n')); return c; }
static void check(const ColumnPrinter& p) {
  vs_assert(p.getColumnCount() == cols.size(), "the number of columns is wrong");
  std::string want = wanted(), got;
  switch (vs_choice("print", vs_param("WAYS", 3))) { case 0: { std::ostringstream o; p.print(o); got = o.str(); break; } case 1: { std::ostringstream o; o << p; got = o.str(); break; }
    case 2: { vs_capture_begin(); mathic::print(stderr, p); static char buf[4096]; size_t n = vs_capture_end(buf, sizeof buf); got = std::string(buf, n); break; } }
  vs_assert(got.size() == want.size(), "the table printed has another size"); vs_assert(eqs(got, want), "another table is printed"); outs(got); vs_cover("end"); }
static void addColumn(ColumnPrinter& p, unsigned how) {
  Column c; c.left = true; c.before = "  ";
  std::ostream* o;
  switch (how) { case 0: o = &p.addColumn(); break; case 1: c.left = false; o = &p.addColumn(false); break; case 2: c.before = "ab"; o = &p.addColumn(true, c.before); break;
    case 3: c.left = false; c.before = ""; c.after = ")"; o = &p.addColumn(false, c.before, c.after); break; default: c.left = vs_choice("left", 2); c.before = symUpTo(0, 2, 0); c.after = symUpTo(0, 2, 0); o = &p.addColumn(c.left, c.before, c.after); break; }
  cols.push_back(c); vs_assert(o == &p[cols.size() - 1], "the stream returned is not the column's"); }
// HOWS: the ways of adding a column (bits); COLS columns, in which texts of up to S arbitrary characters are written, a fill character requested (FILLS), or columns added
static unsigned pick(long mask) { unsigned k[8], n = 0; for (unsigned i = 0; i < 8; ++i) if (mask >> i & 1) k[n++] = i; return k[vs_choice("kind", n)]; }
static void begin(ColumnPrinter& p, unsigned n) { cols.clear(); for (unsigned i = 0; i < n; ++i) { Column c; c.left = true; c.before = "  "; cols.push_back(c); } margin = ""; }
static void step(ColumnPrinter& p, long kinds) {
  switch (pick(kinds)) {
    case 0: case 1: case 2: case 3: { unsigned k = vs_choice("column", cols.size()); std::string s = symUpTo(1, vs_param("S", 2), alphabet()); p[k] << s; put(cols[k], s); break; }
    case 4: { unsigned k = vs_choice("column", cols.size()); char c = padding(); p.repeatToEndOfLine(c, k); fillUp(cols[k], c); break; }
    case 5: { char c = padding(); p.repeatToEndOfLine(c); for (auto& k : cols) fillUp(k, c); break; }
    case 6: addColumn(p, pick(vs_param("HOWS", 15))); break;
    case 7: { std::string s = symUpTo(0, vs_param("PL", 2), 0); p.setPrefix(s); margin = s; break; } } }
// one arbitrary text in every column
VS_HARNESS(table) {
  unsigned made = vs_choice("made", vs_param("MADE", 2)); ColumnPrinter p(made); begin(p, made);
  for (unsigned i = made; i < (unsigned)vs_param("COLS", 2); ++i) addColumn(p, pick(vs_param("HOWS", 15)));
  if (vs_param("PL", 0)) { margin = symUpTo(0, vs_param("PL", 0), 0); p.setPrefix(margin); }
  for (size_t k = 0; k < cols.size(); ++k) { std::string s = symUpTo(vs_param("LO", 0), vs_param("S", 3), alphabet()); p[k] << s; put(cols[k], s); }
  check(p); }
// writes, fills and new columns in any order
VS_HARNESS(table_ops) {
  ColumnPrinter p(vs_param("COLS", 1)); begin(p, vs_param("COLS", 1));
  unsigned n = vs_param("OPS", 3); for (unsigned i = 0; i < n; ++i) { if (cols.empty()) { step(p, 64); } else step(p, vs_param("KINDS", 241)); }
  check(p); }
// two printers do not share anything; long lines
VS_HARNESS(table_long) {
  unsigned n = vs_param("LEN", 90) + vs_choice("more", vs_param("MORE", 4)); ColumnPrinter p; begin(p, 0); addColumn(p, 0); addColumn(p, 1); addColumn(p, 3);
  for (size_t k = 0; k < 3; ++k) { std::string s(vs_choice("which", 3) == k ? n : 3, 'x'); s += symUpTo(1, vs_param("S", 2), alphabet()); p[k] << s; put(cols[k], s); }
  check(p); }
