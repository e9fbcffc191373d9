// Name factory: exact names and unambiguous prefixes resolve, everything else is an error.
#include "text.h"
#include <mathic/NameFactory.h>
struct Thing { unsigned id; explicit Thing(unsigned i) : id(i) {} virtual ~Thing() {} };
template<unsigned I> struct Conc : Thing { Conc() : Thing(I) {} static const char* staticName() { static const char n[3] = {'c', (char)('a' + I), 0}; return n; } };
typedef mathic::NameFactory<Thing> F;
template<unsigned I> static std::unique_ptr<Thing> make() { return std::unique_ptr<Thing>(new Conc<I>()); }
static F::FactoryFunction maker(unsigned i) { static const F::FactoryFunction f[5] = {make<0>, make<1>, make<2>, make<3>, make<4>}; return f[i]; }
static const char* alphabet() { return vs_param("ANY", 0) ? 0 : "ab"; }
// names may start with the same long stem
static std::string stem() { return std::string((size_t)vs_param("STEM", 0), 'q'); }
static void registerAny(F& f, std::string* name, unsigned n, unsigned lo, unsigned hi) { for (unsigned i = 0; i < n; ++i) { name[i] = stem() + symUpTo(lo, hi, alphabet()); for (unsigned j = 0; j < i; ++j) vs_assume(!eqs(name[i], name[j])); vs_assert(f.empty() == (i == 0), "empty() is wrong");
    switch (vs_param("HOW", 0) * 10 + i) { case 0: case 1: case 2: case 3: case 4: f.registerProduct(name[i], maker(i)); break; case 10: mathic::nameFactoryRegister<Conc<0> >(f, name[i]); break; case 11: mathic::nameFactoryRegister<Conc<1> >(f, name[i]); break; case 12: mathic::nameFactoryRegister<Conc<2> >(f, name[i]); break; } } }
enum { Ok, Unknown, Ambiguous, Other };
VS_HARNESS(names) {
  F f("thing"); unsigned n = vs_param("N", 2); std::string name[5]; registerAny(f, name, n, vs_param("LO", 0), vs_param("HI", 2)); std::string p = vs_param("STEM", 0) && vs_choice("short", 2) ? std::string() : stem(); p += symUpTo(0, vs_param("PHI", 2), alphabet());
  unsigned hits = 0, exact = 0, which = 0, whole = 0; for (unsigned i = 0; i < n; ++i) { bool h = prefixOf(p, name[i]), e = eqs(p, name[i]); hits += h; exact += e; which = h ? i : which; whole = e ? i : whole; }
  unsigned want = exact ? Ok : hits == 0 ? Unknown : hits > 1 ? Ambiguous : Ok; unsigned id = exact ? whole : which;
  vs_assert(eqs(f.abstractProductName(), "thing"), "the product name changed");
  switch (vs_choice("call", 5)) {
  case 0: { unsigned got = Ok; std::string r, msg; try { r = mathic::uniqueNameWithPrefix(f, p); } catch (const mathic::UnknownNameException& e) { got = Unknown; msg = e.what(); } catch (const mathic::AmbiguousNameException& e) { got = Ambiguous; msg = e.what(); }
    vs_assert(got == want, "a prefix resolves exactly if it names one product"); if (got == Ok) { bool same = false; for (unsigned i = 0; i < n; ++i) same = same | ((id == i) & eqs(r, name[i])); vs_assert(same, "a prefix resolves to another name"); outs(r); } else vs_assert(hasText(msg, p), "the error does not say which name was not understood"); break; }
  case 1: { unsigned got = Ok; std::unique_ptr<Thing> r; try { r = mathic::createWithPrefix(f, p); } catch (const mathic::UnknownNameException&) { got = Unknown; } catch (const mathic::AmbiguousNameException&) { got = Ambiguous; }
    vs_assert(got == want, "a prefix creates a product exactly if it names one"); vs_assert((got == Ok) == (r.get() != 0), "nothing was created"); if (r.get()) { vs_assert(r->id == id, "a prefix creates another product"); vs_out(r->id); } break; }
  case 2: { std::unique_ptr<Thing> r = f.createNullOnUnknown(p); vs_assert((r.get() != 0) == (exact != 0), "a product is created exactly for a registered name"); if (r.get()) vs_assert(r->id == whole, "a name creates another product"); break; }
  case 3: { bool thrown = false; std::unique_ptr<Thing> r; try { r = f.create(p); } catch (const mathic::UnknownNameException&) { thrown = true; } vs_assert(thrown == (exact == 0), "an unknown name is an error, a registered name is not"); if (!thrown) vs_assert(r.get() && r->id == whole, "a name creates another product"); break; }
  case 4: { std::vector<std::string> v; if (vs_choice("before", 2)) v.push_back(""); size_t had = v.size(); f.namesWithPrefix(p, v); vs_assert(v.size() == hits + had, "listing a prefix gives exactly the names that have it"); if (v.size() != hits + had) break;
    bool sorted = true, found = true; for (size_t i = 1; i < v.size(); ++i) sorted = sorted & lessEq(v[i - 1], v[i]); vs_assert(sorted, "listed names are not in order");
    for (unsigned i = 0; i < n; ++i) { bool in = false; for (size_t j = 0; j < v.size(); ++j) in = in | eqs(v[j], name[i]); found = found & (in | !prefixOf(p, name[i])); } vs_assert(found, "a name with the prefix is not listed"); for (size_t j = 0; j < v.size(); ++j) outs(v[j]); break; } }
  vs_cover("end"); }
VS_HARNESS(names_static) { F f("thing"); vs_assert(f.empty(), "empty() is wrong"); mathic::nameFactoryRegister<Conc<0> >(f); mathic::nameFactoryRegister<Conc<1> >(f); vs_assert(!f.empty(), "empty() is wrong"); std::string p = symUpTo(0, 3, alphabet());
  std::unique_ptr<Thing> r = f.createNullOnUnknown(p); bool a = eqs(p, "ca"), b = eqs(p, "cb"); vs_assert((r.get() != 0) == (a | b), "a product is created exactly for a registered name"); if (r.get()) vs_assert(r->id == (a ? 0u : 1u), "a name creates another product"); vs_cover("end"); }
