// Geometry conformance harness: bounding volumes, measures and tessellations
// of shapes and meshes.
#include "bvjson.h"
#include "fcl/geometry/shape/utility.h"
#include "fcl/geometry/geometric_shape_to_BVH_model.h"
using namespace hv;

template <class F> bool withShape(const Body& b, F f) {
  if (b.kind == "sphere") f(static_cast<const Sphere<double>&>(*b.g));
  else if (b.kind == "box") f(static_cast<const Box<double>&>(*b.g));
  else if (b.kind == "ellipsoid") f(static_cast<const Ellipsoid<double>&>(*b.g));
  else if (b.kind == "capsule") f(static_cast<const Capsule<double>&>(*b.g));
  else if (b.kind == "cone") f(static_cast<const Cone<double>&>(*b.g));
  else if (b.kind == "cylinder") f(static_cast<const Cylinder<double>&>(*b.g));
  else if (b.kind == "convex") f(static_cast<const Convex<double>&>(*b.g));
  else if (b.kind == "halfspace") f(static_cast<const Halfspace<double>&>(*b.g));
  else if (b.kind == "plane") f(static_cast<const Plane<double>&>(*b.g));
  else if (b.kind == "triangle") f(static_cast<const TriangleP<double>&>(*b.g));
  else return false;
  return true;
}
template <class X> std::vector<V3> hullOf(const X& x, const Tf& t) { return x.getBoundVertices(t); }
inline std::vector<V3> hullOf(const Halfspace<double>&, const Tf&) { return {}; }
inline std::vector<V3> hullOf(const Plane<double>&, const Tf&) { return {}; }
struct Bounds {       // computeBV, and the box constructed from it
  const Body& b; J& j; int how; Tf extra;
  template <class BV> void run() {
    BV v;
    if (!withShape(b, [&](const auto& s) { computeBV(s, b.tf, v); })) return;
    j.raw("bv", bvJ(v));
    if (!how) return;
    Box<double> x; Tf t;
    if (how == 1) constructBox(v, x, t); else constructBox(v, extra, x, t);
    j.v3("side", x.side).raw("BR", matJ(t.linear())).v3("Bt", t.translation());
    j.raw("XR", matJ(how == 1 ? Matrix3<double>(Matrix3<double>::Identity()) : extra.linear())).v3("Xt", how == 1 ? V3(0, 0, 0) : V3(extra.translation()));
  }
  void dispatch(const std::string& k) {
    if (k == "AABB") run<AABB<double>>(); else if (k == "OBB") run<OBB<double>>(); else if (k == "RSS") run<RSS<double>>();
    else if (k == "kIOS") run<kIOS<double>>(); else if (k == "OBBRSS") run<OBBRSS<double>>(); else if (k == "KDOP16") run<KDOP<double, 16>>();
    else if (k == "KDOP18") run<KDOP<double, 18>>(); else run<KDOP<double, 24>>();
  }
};
template <class BV> void tess(const Body& b, int form, unsigned n1, unsigned n2, J& j) {
  BVHModel<BV> m; int rc = -1;
  if (b.kind == "box") rc = generateBVHModel(m, static_cast<const Box<double>&>(*b.g), b.tf);
  else if (b.kind == "sphere") { auto& s = static_cast<const Sphere<double>&>(*b.g); rc = form ? generateBVHModel(m, s, b.tf, n1) : generateBVHModel(m, s, b.tf, n1, n2); }
  else if (b.kind == "ellipsoid") { auto& s = static_cast<const Ellipsoid<double>&>(*b.g); rc = form ? generateBVHModel(m, s, b.tf, n1) : generateBVHModel(m, s, b.tf, n1, n2); }
  else if (b.kind == "cylinder") { auto& s = static_cast<const Cylinder<double>&>(*b.g); rc = form ? generateBVHModel(m, s, b.tf, n1) : generateBVHModel(m, s, b.tf, n1, n2); }
  else if (b.kind == "cone") { auto& s = static_cast<const Cone<double>&>(*b.g); rc = form ? generateBVHModel(m, s, b.tf, n1) : generateBVHModel(m, s, b.tf, n1, n2); }
  std::vector<V3> v(m.vertices, m.vertices + m.num_vertices);
  std::vector<std::string> t;
  for (int q = 0; q < m.num_tris; ++q) { auto& x = m.tri_indices[q]; t.push_back("[" + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + "]"); }
  j.i("rc", rc).i("form", form).i("n1", n1).i("n2", n2).raw("v", vecs(v)).raw("t", list(t)).i("state", m.build_state == BVH_BUILD_STATE_PROCESSED);
}

static void history(History& h) {
  std::map<int, Body> w;
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op); int s = c.i(); j.i("s", s);
    if (c.op == "shape" || c.op == "mesh") {
      Tf keep = w.count(s) ? w[s].tf : Tf::Identity();
      w[s] = c.op == "shape" ? mkShape(c, j) : mkMesh(c, j);
      w[s].tf = keep;
    } else if (c.op == "pose") w[s].tf = mkPose(c, j);
    else if (c.op == "bv") {
      std::string k = c.w(); int how = c.i(); J dummy; Tf x = mkPose(c, dummy);
      j.i("how", how);
      Bounds b{w[s], j, how, x}; b.dispatch(k);
    } else if (c.op == "loc") {
      auto& g = *w[s].g; g.computeLocalAABB();
      j.v3("lo", g.aabb_local.min_).v3("hi", g.aabb_local.max_).v3("c", g.aabb_center).d("r", g.aabb_radius);
    } else if (c.op == "world") {     // a placed object, by different ways of placing it
      int how = c.i(); const Tf& t = w[s].tf;
      CollisionObject<double> o = how == 0 ? CollisionObject<double>(w[s].g, t) : how == 1 ? CollisionObject<double>(w[s].g, Matrix3<double>(t.linear()), V3(t.translation())) : CollisionObject<double>(w[s].g);
      if (how == 2) { o.setTransform(t); o.computeAABB(); }
      if (how == 3) { o.setRotation(t.linear()); o.setTranslation(t.translation()); o.computeAABB(); }
      if (how == 4) { o.setQuatRotation(Quaternion<double>(t.linear())); o.setTranslation(t.translation()); o.computeAABB(); }
      if (how == 5) { o.setTransform(Quaternion<double>(t.linear()), t.translation()); o.computeAABB(); }
      if (how == 6) { o.setTransform(t); o.computeAABB(); o.setIdentityTransform(); o.setTransform(Matrix3<double>(t.linear()), t.translation()); o.computeAABB(); }
      j.v3("lo", o.getAABB().min_).v3("hi", o.getAABB().max_).raw("GR", matJ(o.getRotation())).v3("Gt", o.getTranslation());
    } else if (c.op == "mass") {
      auto& g = *w[s].g;
      j.d("vol", g.computeVolume()).v3("com", V3(g.computeCOM())).raw("I", matJ(g.computeMomentofInertia())).raw("Ic", matJ(g.computeMomentofInertiaRelatedToCOM()));
    } else if (c.op == "hull") {
      std::vector<V3> v; withShape(w[s], [&](const auto& x) { v = hullOf(x, w[s].tf); });
      j.raw("v", vecs(v));
    } else if (c.op == "extreme") {
      V3 n = rdv(c); auto& x = static_cast<const Convex<double>&>(*w[s].g);
      j.v3("n", n).v3("x", x.findExtremeVertex(n)).v3("in", x.getInteriorPoint());
    } else if (c.op == "side") {
      V3 p = rdv(c); double a, d;
      if (w[s].kind == "halfspace") { auto x = transform(static_cast<const Halfspace<double>&>(*w[s].g), w[s].tf); a = x.signedDistance(p); d = x.distance(p); }
      else { auto x = transform(static_cast<const Plane<double>&>(*w[s].g), w[s].tf); a = x.signedDistance(p); d = x.distance(p); }
      j.v3("x", p).d("sd", a).d("d", d);
    } else if (c.op == "tess") {
      std::string k = c.w(); int form = c.i(); unsigned n1 = c.i(), n2 = c.i();
      if (k == "AABB") tess<AABB<double>>(w[s], form, n1, n2, j); else if (k == "OBB") tess<OBB<double>>(w[s], form, n1, n2, j);
      else if (k == "RSS") tess<RSS<double>>(w[s], form, n1, n2, j); else tess<OBBRSS<double>>(w[s], form, n1, n2, j);
    } else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    emit(j);
  }
}
int main(int argc, char** argv) { return run(argc, argv, history); }
