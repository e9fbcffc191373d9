// Geobucket configurations
#pragma once
#include "pq.h"
#include <mathic/Geobucket.h>
template<bool TF, bool PM, bool CM, int ST, bool BS, bool DD, int IF, class Base = OrderConf> struct GeoConf : Base {
  typedef typename Base::Entry Entry;
  GeoConf(size_t base, size_t min): minBucketSize(min), geoBase(base) {}
  size_t minBucketSize, geoBase;
  static const size_t insertFactor = IF; static const bool supportDeduplication = DD, minBucketBinarySearch = BS, trackFront = TF, premerge = PM, collectMax = CM;
  static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)ST;
};
// calls F::template go<Conf>(base, min) for a configuration picked by the engine (restricted by parameters)
template<class F, int ST, bool DD, int IF, class Base> struct Pick {
  template<bool TF, bool PM, bool CM> static void p3() { if (vs_choice("binary search", 2)) F::template go<GeoConf<TF, PM, CM, ST, true, DD, IF, Base> >(base(), mn()); else F::template go<GeoConf<TF, PM, CM, ST, false, DD, IF, Base> >(base(), mn()); }
  template<bool TF, bool PM> static void p2() { if (vs_choice("collect max", 2)) p3<TF, PM, true>(); else p3<TF, PM, false>(); }
  template<bool TF> static void p1() { if (vs_choice("premerge", 2)) p2<TF, true>(); else p2<TF, false>(); }
  static void p0() { if (vs_choice("track front", 2)) p1<true>(); else p1<false>(); }
  static size_t base() { return vs_param("BASE", 2); }
  static size_t mn() { return vs_param("MIN", 1); }
};
