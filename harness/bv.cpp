// Bounding volume conformance harness: registers hold volumes of one type and
// every operation logs the volume it produced or the answer it gave.
#include "bvjson.h"
using namespace hv;

template <class BV> BV ofPoint(const V3& p) { BV b; fit(&p, 1, b); return b; }
template <> AABB<double> ofPoint(const V3& p) { return AABB<double>(p); }
template <> KDOP<double, 16> ofPoint(const V3& p) { return KDOP<double, 16>(p); }
template <> KDOP<double, 18> ofPoint(const V3& p) { return KDOP<double, 18>(p); }
template <> KDOP<double, 24> ofPoint(const V3& p) { return KDOP<double, 24>(p); }

template <class BV> bool inside(const BV& b, const V3& p) { return b.contain(p); }
template <size_t N> bool inside(const KDOP<double, N>& b, const V3& p) { return b.inside(p); }

// placed volumes: only the oriented types know them
template <class BV> struct Rel { static bool over(const Matrix3<double>&, const V3&, const BV&, const BV&, bool&) { return false; }
  static bool dist(const Matrix3<double>&, const V3&, const BV&, const BV&, double&) { return false; } };
#define RELO(B) static bool over(const Matrix3<double>& R, const V3& t, const B& a, const B& b, bool& r) { r = overlap(R, t, a, b); return true; }
#define RELD(B) static bool dist(const Matrix3<double>& R, const V3& t, const B& a, const B& b, double& r) { r = distance(R, t, a, b, (V3*)nullptr, (V3*)nullptr); return true; }
template <> struct Rel<OBB<double>> { RELO(OBB<double>) static bool dist(const Matrix3<double>&, const V3&, const OBB<double>&, const OBB<double>&, double&) { return false; } };
template <> struct Rel<RSS<double>> { RELO(RSS<double>) RELD(RSS<double>) };
template <> struct Rel<kIOS<double>> { RELO(kIOS<double>) RELD(kIOS<double>) };
template <> struct Rel<OBBRSS<double>> { RELO(OBBRSS<double>) RELD(OBBRSS<double>) };

template <class A, class B> struct Conv { static std::string run(const A& a, const Tf& tf) { B b; convertBV(a, tf, b); return bvJ(b); } };
template <class A> std::string toRSS(const A&, const Tf&) { return ""; }
inline std::string toRSS(const AABB<double>& a, const Tf& tf) { return Conv<AABB<double>, RSS<double>>::run(a, tf); }
inline std::string toRSS(const OBB<double>& a, const Tf& tf) { return Conv<OBB<double>, RSS<double>>::run(a, tf); }
inline std::string toRSS(const RSS<double>& a, const Tf& tf) { return Conv<RSS<double>, RSS<double>>::run(a, tf); }
inline std::string toRSS(const OBBRSS<double>& a, const Tf& tf) { return Conv<OBBRSS<double>, RSS<double>>::run(a, tf); }

template <class BV> bool hasDist() { return true; }
template <> bool hasDist<OBB<double>>() { return false; }
template <> bool hasDist<KDOP<double, 16>>() { return false; }
template <> bool hasDist<KDOP<double, 18>>() { return false; }
template <> bool hasDist<KDOP<double, 24>>() { return false; }

// further operations of AABBs
template <class BV> bool aabbOp(std::map<int, BV>&, Cmd&, J&) { return false; }
template <> bool aabbOp(std::map<int, AABB<double>>& w, Cmd& c, J& j) {
  if (c.op == "part") {
    int a = c.i(), b = c.i(); AABB<double> p; bool r = w[a].overlap(w[b], p);
    j.i("a", a).i("b", b).b("ret", r); if (r) j.raw("bv", bvJ(p));
    return true;
  }
  if (c.op == "holds") { int a = c.i(), b = c.i(); j.i("a", a).i("b", b).b("ret", w[a].contain(w[b])); return true; }
  if (c.op == "axis") { int a = c.i(), b = c.i(), k = c.i(); j.i("a", a).i("b", b).i("k", k).b("ret", w[a].axisOverlap(w[b], k)); return true; }
  if (c.op == "grow") { int r = c.i(), a = c.i(); V3 d = rdv(c); AABB<double> x = w[a]; x.expand(d); w[r] = x; j.i("r", r).i("a", a).v3("d", d).raw("bv", bvJ(x)); return true; }
  return false;
}

template <class BV> static void hist(History& h) {
  std::map<int, BV> w;
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op);
    auto put = [&](int r, const BV& b) { w[r] = b; j.i("r", r).raw("bv", bvJ(b)); };
    auto pts = [&](int n) { std::vector<V3> v; for (int q = 0; q < n; ++q) v.push_back(rdv(c)); return v; };
    if (c.op == "fit") { int r = c.i(); auto v = pts(c.i()); BV b; fit(v.data(), (int)v.size(), b); j.raw("ps", vecs(v)); put(r, b); }
    else if (c.op == "one") { int r = c.i(); V3 p = rdv(c); j.raw("ps", vecs({p})); put(r, ofPoint<BV>(p)); }
    else if (c.op == "addp") { int r = c.i(); V3 p = rdv(c); BV b = w[r]; b += p; j.raw("ps", vecs({p})); put(r, b); }
    else if (c.op == "merge") {
      int r = c.i(), a = c.i(), b = c.i(), how = c.i(); BV x;
      if (how) { x = w[a]; x += w[b]; } else x = w[a] + w[b];
      j.i("a", a).i("b", b); put(r, x);
    } else if (c.op == "trans") { int r = c.i(), a = c.i(); V3 t = rdv(c); j.i("a", a).v3("t", t); put(r, translate(w[a], t)); }
    else if (c.op == "conv") {
      int a = c.i(); std::string k = c.w(); j.i("a", a); Tf tf = mkPose(c, j);
      std::string s = k == "AABB" ? Conv<BV, AABB<double>>::run(w[a], tf) : k == "OBB" ? Conv<BV, OBB<double>>::run(w[a], tf) : toRSS(w[a], tf);
      if (s.empty()) continue;
      j.raw("bv", s);
    } else if (c.op == "over") { int a = c.i(), b = c.i(); j.i("a", a).i("b", b).b("ret", w[a].overlap(w[b])); }
    else if (c.op == "overrel" || c.op == "distrel") {
      int a = c.i(), b = c.i(); j.i("a", a).i("b", b); Tf tf = mkPose(c, j); Matrix3<double> R = tf.linear(); V3 t = tf.translation();
      bool r; double d;
      if (c.op == "overrel") { if (!Rel<BV>::over(R, t, w[a], w[b], r)) continue; j.b("ret", r); }
      else { if (!Rel<BV>::dist(R, t, w[a], w[b], d)) continue; j.d("ret", d); }
    } else if (c.op == "dist") {
      int a = c.i(), b = c.i(), np = c.i(); V3 P(0, 0, 0), Q(0, 0, 0);
      if (!hasDist<BV>()) continue;
      double d = np ? w[a].distance(w[b], &P, &Q) : w[a].distance(w[b]);
      j.i("a", a).i("b", b).i("np", np).d("ret", d).v3("P", P).v3("Q", Q);
    } else if (c.op == "cont") { int a = c.i(); V3 p = rdv(c); j.i("a", a).v3("p", p).b("ret", inside(w[a], p)); }
    else if (c.op == "meas") {
      int a = c.i(); const BV& b = w[a];
      j.i("a", a).d("w", b.width()).d("h", b.height()).d("dp", b.depth()).v3("c", V3(b.center())).d("vol", b.volume());
    } else if (!aabbOp(w, c, j)) continue;
    emit(j);
  }
}
static void history(History& h) {
  std::string k = h.hdr.w();
  if (k == "AABB") hist<AABB<double>>(h);
  else if (k == "OBB") hist<OBB<double>>(h);
  else if (k == "RSS") hist<RSS<double>>(h);
  else if (k == "kIOS") hist<kIOS<double>>(h);
  else if (k == "OBBRSS") hist<OBBRSS<double>>(h);
  else if (k == "KDOP16") hist<KDOP<double, 16>>(h);
  else if (k == "KDOP18") hist<KDOP<double, 18>>(h);
  else hist<KDOP<double, 24>>(h);
}
int main(int argc, char** argv) { return run(argc, argv, history); }
