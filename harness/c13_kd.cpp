#include "kd.h"
struct Hist { template<class T> void run() const { { Opt o = options(); T t((typename T::Configuration(o))); Model m; try { history(t, m); } catch (const std::logic_error&) { refused(m, T::Configuration::LeafSize); } } vs_assert(g_live == 0, "destroying the tree destroys every entry once"); vs_cover("end"); } };
VS_HARNESS(kd) { withMask<Hist, PACKED>(Hist()); }
VS_HARNESS(kd_norem) { withNoRemovals<Hist, PACKED>(Hist()); }
