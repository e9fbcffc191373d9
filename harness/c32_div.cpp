// Memory use of the divisor list and the k-d trees.
#include "kd.h"
#include "mem.h"
#include <mathic/DivList.h>
template<class C> struct DOps<mathic::DivList<C> > { typedef mathic::DivList<C> D; static const bool canClear = false; static void clear(D&, Model&) {} static bool canFront(D&) { return false; } static void front(D&, Model&) {} };
template<class T> struct Arenas { static const unsigned blocks = 0; };
template<class C> struct Arenas<mathic::KDTree<C> > { static const unsigned blocks = 1; };
struct Mem { template<class T> void run() const {
    { memt::Arena& a = memt::Arena::getArena(); void* p = a.alloc(8); a.freeTop(p); } // scratch memory shared by all trees
    Held h; { T t((typename T::Configuration(options()))); Model m; const unsigned blocks = Arenas<T>::blocks; h.nearly(t.getMemoryUse(), blocks);
      try { fillWith(t, m); h.nearly(t.getMemoryUse(), blocks); unsigned K = vs_param("K", 2), OPS = vs_param("OPS", 1); unsigned long kinds = vs_param("KINDS", 15);
        for (unsigned i = 0; i < K; ++i) { t.insert(m.add(symMono())); h.nearly(t.getMemoryUse(), blocks); }
        unsigned ks[16], nk = 0; for (unsigned i = 0; i < 9; ++i) if ((kinds >> i & 1) && (i != 5 || DOps<T>::canClear) && i != 7) ks[nk++] = i;
        for (unsigned i = 0; i < OPS; ++i) { doOp(t, m, ks[vs_choice("op", nk)]); h.nearly(t.getMemoryUse(), blocks); }
      } catch (const std::logic_error&) { refused(m, T::Configuration::LeafSize); }
      h.nearly(t.getMemoryUse(), blocks); vs_assert(t.getMemoryUse() >= m.count() * sizeof(Ent), "less memory is reported than the entries take"); }
    h.none(); } };
VS_HARNESS(mem_kd) { withMask<Mem, PACKED>(Mem()); }
VS_HARNESS(mem_list) { const Mem f = Mem(); switch (pick("LIST", 4)) {
  case 0: f.template run<mathic::DivList<DConf<false, false, 1, false, false, true> > >(); break;
  case 1: f.template run<mathic::DivList<DConf<true, false, 1, false, false, true> > >(); break;
  case 2: f.template run<mathic::DivList<DConf<false, false, 1, false, true, true> > >(); break;
  case 3: f.template run<mathic::DivList<DConf<true, false, 1, false, true, true> > >(); break; } }
