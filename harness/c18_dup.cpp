#include "kd.h"
// inserts that may be refused; after each the tree holds exactly what the model says
struct Dup { template<class T> void run() const { const unsigned Leaf = T::Configuration::LeafSize; { Opt o = options(); T t((typename T::Configuration(o))); Model m; fillWith(t, m); unsigned K = vs_param("K", 2), OPS = vs_param("OPS", 0); unsigned long kinds = vs_param("KINDS", 1); Mono base = symMono(); for (unsigned j = 0; j < m.n; ++j) vs_assume(!same(m.m[j], base));
    for (unsigned c = vs_param("COPIES", Leaf); c-- > 0;) t.insert(m.add(base));
    unsigned ks[16], nk = 0; for (unsigned i = 0; i < 8; ++i) if (kinds >> i & 1) ks[nk++] = i;
    for (unsigned i = 0; i < K; ++i) { Mono x = symMono(); unsigned copies = 0; for (unsigned j = 0; j < m.n; ++j) copies += m.held[j] && same(m.m[j], x); bool refused = false;
      try { t.insert(m.add(x)); } catch (const std::logic_error&) { refused = true; m.undo(); vs_cover("refused"); }
      vs_assert(refused == (copies >= Leaf), "an insert is refused exactly when the leaf already holds as many copies as it can"); vs_assert(t.size() == m.count() && t.empty() == (m.count() == 0), "size and empty agree with what is held");
      if (refused && OPS) { doOp(t, m, ks[vs_choice("op", nk)]); --OPS; } }
    finalChecks(t, m); } vs_assert(g_live == 0, "destroying the tree destroys every entry once"); vs_cover("end"); } };
VS_HARNESS(copies) { withMask<Dup, PACKED>(Dup()); }
