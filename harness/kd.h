#pragma once
#include "div.h"
#include <mathic/KDTree.h>
#ifndef PACKED
#define PACKED 0
#endif
template<class C> struct DOps<mathic::KDTree<C> > { typedef mathic::KDTree<C> D; static const bool canClear = true;
  static void clear(D& d, Model& m) { d.clear(); for (unsigned i = 0; i < m.n; ++i) m.held[i] = false; vs_assert(g_live == 0, "clearing destroys every entry"); }
  static bool canFront(D&) { return false; } static void front(D&, Model&) {} };
// runs f<Tree> for one choice of masks, leaf size (and, if asked, no-removals mode)
template<class F, bool Mask, bool TreeMask, bool Packed> static void withLeaf(const F& f) {
  switch (pick("LEAF", 3)) {
  case 0: f.template run<mathic::KDTree<DConf<Mask, TreeMask, 1, Packed, false, true> > >(); break;
  case 1: f.template run<mathic::KDTree<DConf<Mask, TreeMask, 2, Packed, false, true> > >(); break;
  case 2: f.template run<mathic::KDTree<DConf<Mask, TreeMask, 3, Packed, false, true> > >(); break;
  case 3: f.template run<mathic::KDTree<DConf<Mask, TreeMask, 5, Packed, false, true> > >(); break; // by parameter only
  } }
template<class F, bool Packed> static void withMask(const F& f) {
  switch (pick("MASK", 3)) {
  case 0: withLeaf<F, false, false, Packed>(f); break;
  case 1: withLeaf<F, true, false, Packed>(f); break;
  case 2: withLeaf<F, true, true, Packed>(f); break;
  } }
// the configurations that forbid removals
template<class F, bool Packed> static void withNoRemovals(const F& f) {
  switch (pick("MASK", 2)) {
  case 0: if (pick("LEAF", 2)) f.template run<mathic::KDTree<DConf<false, false, 2, Packed, false, false> > >(); else f.template run<mathic::KDTree<DConf<false, false, 1, Packed, false, false> > >(); break;
  case 1: if (pick("LEAF", 2)) f.template run<mathic::KDTree<DConf<true, true, 2, Packed, false, false> > >(); else f.template run<mathic::KDTree<DConf<true, true, 1, Packed, false, false> > >(); break;
  } }
// a refused insert is legitimate only where more copies of one monomial are held than a leaf can hold; such histories are C18's
static void refused(const Model& m, unsigned leaf) { bool many = false; for (unsigned i = 0; i < m.n; ++i) if (m.held[i]) { unsigned c = 0; for (unsigned j = 0; j < m.n; ++j) c += (unsigned)(m.held[j] & same(m.m[i], m.m[j])); many = many | (c > leaf); }
  vs_assert(many, "an operation is refused only when there are more copies of one monomial than a leaf holds"); vs_cover("refused"); }
