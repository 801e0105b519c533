// Bounding volumes as JSON records for the specification (see specs/BV.tla).
#pragma once
#include "geo.h"
#include "fcl/math/bv/utility.h"
namespace hv {
inline void bvInto(J& j, const AABB<double>& b) { j.str("k", "AABB").v3("lo", b.min_).v3("hi", b.max_); }
inline void obbInto(J& j, const OBB<double>& b) { j.raw("A", matJ(b.axis)).v3("T", b.To).v3("E", b.extent); }
inline void bvInto(J& j, const OBB<double>& b) { j.str("k", "OBB"); obbInto(j, b); }
inline void bvInto(J& j, const RSS<double>& b) { j.str("k", "RSS").raw("A", matJ(b.axis)).v3("T", b.To).raw("l", nums({b.l[0], b.l[1]})).d("r", b.r); }
inline void bvInto(J& j, const kIOS<double>& b) {
  std::vector<std::string> s;
  for (unsigned q = 0; q < b.num_spheres && q < 5; ++q) { J o; o.v3("o", b.spheres[q].o).d("r", b.spheres[q].r); s.push_back(o.done()); }
  j.str("k", "kIOS").raw("s", list(s)); obbInto(j, b.obb);
}
inline void bvInto(J& j, const OBBRSS<double>& b) {
  j.str("k", "OBBRSS"); obbInto(j, b.obb);
  j.raw("A2", matJ(b.rss.axis)).v3("T2", b.rss.To).raw("l", nums({b.rss.l[0], b.rss.l[1]})).d("r", b.rss.r);
}
template <size_t N> void bvInto(J& j, const KDOP<double, N>& b) {
  std::vector<double> d; for (size_t q = 0; q < N; ++q) d.push_back(b.dist(q));
  j.str("k", "KDOP").raw("d", nums(d));
}
template <class BV> std::string bvJ(const BV& b) { J j; bvInto(j, b); return j.done(); }
}  // namespace hv
