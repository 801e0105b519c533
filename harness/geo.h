// Geometries of the conformance harnesses: parsed from commands, logged exactly.
#pragma once
#include "common.h"
#include <memory>
#include "fcl/math/bv/utility.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/geometry/shape/ellipsoid.h"
#include "fcl/geometry/shape/capsule.h"
#include "fcl/geometry/shape/cone.h"
#include "fcl/geometry/shape/cylinder.h"
#include "fcl/geometry/shape/convex.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#include "fcl/geometry/shape/triangle_p.h"
#include "fcl/geometry/bvh/BVH_model.h"
#include "fcl/geometry/octree/octree.h"
#include "fcl/narrowphase/collision_object.h"

namespace hv {
using namespace fcl;
typedef Vector3<double> V3;
typedef Transform3<double> Tf;
typedef std::shared_ptr<CollisionGeometry<double>> Geo;

inline V3 rdv(Cmd& c) { double x = c.d(), y = c.d(), z = c.d(); return V3(x, y, z); }

struct Body {
  Geo g; Tf tf = Tf::Identity(); std::string kind;
  std::vector<V3> verts; std::vector<Triangle> tris;
  std::shared_ptr<octomap::OcTree> oct;
};

inline std::string vecs(const std::vector<V3>& v) {
  std::vector<std::string> s; for (auto& p : v) s.push_back(J::vec(p)); return list(s);
}
inline std::string nums(const std::vector<double>& v) {
  std::vector<std::string> s; for (double p : v) s.push_back(J::dbl(p)); return list(s);
}
inline std::string matJ(const Matrix3<double>& R) {
  return "[" + J::vec(V3(R.row(0))) + "," + J::vec(V3(R.row(1))) + "," + J::vec(V3(R.row(2))) + "]";
}

// shape <slot> <kind> <params>
inline Body mkShape(Cmd& c, J& j) {
  Body b; std::string k = b.kind = c.w();
  std::vector<double> p; std::vector<std::string> faces;
  auto take = [&](int n) { for (int q = 0; q < n; ++q) p.push_back(c.d()); };
  if (k == "sphere") { take(1); b.g = std::make_shared<Sphere<double>>(p[0]); }
  else if (k == "box") { take(3); b.g = std::make_shared<Box<double>>(p[0], p[1], p[2]); }
  else if (k == "ellipsoid") { take(3); b.g = std::make_shared<Ellipsoid<double>>(p[0], p[1], p[2]); }
  else if (k == "capsule") { take(2); b.g = std::make_shared<Capsule<double>>(p[0], p[1]); }
  else if (k == "cone") { take(2); b.g = std::make_shared<Cone<double>>(p[0], p[1]); }
  else if (k == "cylinder") { take(2); b.g = std::make_shared<Cylinder<double>>(p[0], p[1]); }
  else if (k == "halfspace") { take(4); auto h = std::make_shared<Halfspace<double>>(p[0], p[1], p[2], p[3]); b.g = h; }
  else if (k == "plane") { take(4); auto h = std::make_shared<Plane<double>>(p[0], p[1], p[2], p[3]); b.g = h; }
  else if (k == "triangle") { for (int q = 0; q < 3; ++q) b.verts.push_back(rdv(c)); b.g = std::make_shared<TriangleP<double>>(b.verts[0], b.verts[1], b.verts[2]); }
  else if (k == "convex") {
    int nv = c.i(); auto vs = std::make_shared<std::vector<V3>>(); for (int q = 0; q < nv; ++q) vs->push_back(rdv(c));
    int nf = c.i(); auto fs = std::make_shared<std::vector<int>>();
    for (int q = 0; q < nf; ++q) { int n = c.i(); fs->push_back(n); std::string s = "["; for (int r = 0; r < n; ++r) { int id = c.i(); fs->push_back(id); if (r) s += ","; s += std::to_string(id); } faces.push_back(s + "]"); }
    b.verts = *vs; b.g = std::make_shared<Convex<double>>(vs, nf, fs);
  } else { fprintf(stderr, "bad shape %s\n", k.c_str()); _exit(98); }
  b.g->computeLocalAABB();
  j.str("k", k).raw("p", nums(p)).raw("v", vecs(b.verts)).raw("f", list(faces)).raw("t", "[]");
  return b;
}

// how % 3: split method;  (how / 3) % 2: filled triangle by triangle;  how / 6: what happened to the model
// since (0 nothing, 1 updated, 2 replaced, 3 copied, 4 updated and copied, 5 replaced after an update)
template <class BV> Geo buildMesh(const Body& b, int how) {
  int past = how / 6; how %= 6;
  std::vector<V3> vs, moved;      // in the order of the model's own vertices
  if (how < 3) vs = b.verts; else for (auto& t : b.tris) for (int q = 0; q < 3; ++q) vs.push_back(b.verts[t[q]]);
  for (auto& p : vs) moved.push_back(V3(1.5 * p[1] + 0.3, -p[0], p[2] * 0.7 - 1.1));
  auto m = std::make_shared<BVHModel<BV>>();
  m->bv_splitter.reset(new detail::BVSplitter<BV>((detail::SplitMethodType)(how % 3)));
  m->beginModel();
  const std::vector<V3>& first = past == 0 || past == 3 ? vs : moved;
  if (how < 3) m->addSubModel(first, b.tris);
  else for (size_t q = 0; q + 2 < vs.size(); q += 3) m->addTriangle(first[q], first[q + 1], first[q + 2]);
  m->endModel();
  auto update = [&](const std::vector<V3>& x) { m->beginUpdateModel(); m->updateSubModel(x); m->endUpdateModel(true, true); };
  auto replace = [&](const std::vector<V3>& x) { m->beginReplaceModel(); m->replaceSubModel(x); m->endReplaceModel(true, how % 2); };
  if (past == 1 || past == 4) update(vs);
  if (past == 2) replace(vs);
  if (past == 5) { update(moved); replace(vs); }
  if (past == 3 || past == 4) return std::make_shared<BVHModel<BV>>(*m);
  return m;
}
inline Geo buildMeshBV(const std::string& bv, const Body& b, int how) {
  if (bv == "AABB") return buildMesh<AABB<double>>(b, how);
  if (bv == "OBB") return buildMesh<OBB<double>>(b, how);
  if (bv == "RSS") return buildMesh<RSS<double>>(b, how);
  if (bv == "kIOS") return buildMesh<kIOS<double>>(b, how);
  if (bv == "OBBRSS") return buildMesh<OBBRSS<double>>(b, how);
  if (bv == "KDOP16") return buildMesh<KDOP<double, 16>>(b, how);
  if (bv == "KDOP18") return buildMesh<KDOP<double, 18>>(b, how);
  if (bv == "KDOP24") return buildMesh<KDOP<double, 24>>(b, how);
  fprintf(stderr, "bad bv %s\n", bv.c_str()); _exit(98);
}
// mesh <slot> <bv> <how> nv xyz.. nt ijk..
inline Body mkMesh(Cmd& c, J& j) {
  Body b; b.kind = "mesh"; std::string bv = c.w(); int how = c.i();
  int nv = c.i(); for (int q = 0; q < nv; ++q) b.verts.push_back(rdv(c));
  int nt = c.i(); std::vector<std::string> ts;
  for (int q = 0; q < nt; ++q) { int x = c.i(), y = c.i(), z = c.i(); b.tris.push_back(Triangle(x, y, z));
    ts.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "]"); }
  b.g = buildMeshBV(bv, b, how);
  b.g->computeLocalAABB();
  j.str("k", "mesh").str("bv", bv).raw("p", "[]").raw("v", vecs(b.verts)).raw("f", "[]").raw("t", list(ts));
  return b;
}
// octree <slot> <res> n (x y z hit|miss-count)..   boxes are logged as the cells octomap itself reports
inline Body mkOct(Cmd& c, J& j) {
  Body b; b.kind = "octree"; double res = c.d(); int n = c.i(); int prune = 0;
  b.oct = std::make_shared<octomap::OcTree>(res);
  for (int q = 0; q < n; ++q) {
    V3 p = rdv(c); int hits = c.i();
    for (int r = 0; r < std::abs(hits); ++r) b.oct->updateNode(octomap::point3d(p[0], p[1], p[2]), hits > 0);
  }
  prune = c.i();
  if (prune) { b.oct->updateInnerOccupancy(); b.oct->prune(); }
  b.g = std::make_shared<OcTree<double>>(std::shared_ptr<const octomap::OcTree>(b.oct));
  b.g->computeLocalAABB();
  auto* t = static_cast<OcTree<double>*>(b.g.get());
  std::vector<std::string> cells;
  for (auto it = b.oct->begin_leafs(); it != b.oct->end_leafs(); ++it) {
    double h = it.getSize() / 2;
    V3 ce(it.getX(), it.getY(), it.getZ());
    J cell; cell.v3("lo", V3(ce - V3(h, h, h))).v3("hi", V3(ce + V3(h, h, h))).d("pr", it->getOccupancy());
    cells.push_back(cell.done());
  }
  j.str("k", "octree").raw("p", nums({t->getOccupancyThres(), t->getFreeThres()})).raw("v", "[]").raw("f", "[]").raw("t", "[]").raw("cells", list(cells));
  return b;
}
inline Tf mkPose(Cmd& c, J& j) {
  double w = c.d(), x = c.d(), y = c.d(), z = c.d(); V3 t = rdv(c);
  Tf tf = Tf::Identity();
  double n = std::sqrt(w * w + x * x + y * y + z * z);
  if (!(w == n && x == 0 && y == 0 && z == 0)) tf.linear() = Quaternion<double>(w / n, x / n, y / n, z / n).toRotationMatrix();
  tf.translation() = t;
  j.raw("R", matJ(tf.linear())).v3("t", tf.translation());
  return tf;
}
}  // namespace hv
