// Octree conformance harness: octrees against shapes, meshes and octrees, and
// what an octree says about itself.
#include "geo.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace hv;

static GJKSolverType solver(const std::string& s) { return s == "i" ? GST_INDEP : GST_LIBCCD; }

// the leaf (in octomap's order) an id of the library stands for, -1 if none
static int leafOf(const Body& b, long long id) {
  auto* t = static_cast<const OcTree<double>*>(b.g.get());
  int k = 0;
  for (auto it = b.oct->begin_leafs(); it != b.oct->end_leafs(); ++it, ++k)
    if (&*it - t->getRoot() == id) return k;
  return -1;
}
static int part(const Body& b, long long id) { return b.oct ? leafOf(b, id) : (int)id; }
static int which(std::map<int, Body>& w, int a, int b, const void* o) { return o == w[a].g.get() ? a : o == w[b].g.get() ? b : -1; }

static void history(History& h) {
  std::map<int, Body> w;
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op);
    if (c.op == "shape" || c.op == "mesh" || c.op == "octree") {
      int s = c.i(); j.i("s", s);
      w[s] = c.op == "shape" ? mkShape(c, j) : c.op == "mesh" ? mkMesh(c, j) : mkOct(c, j);
    } else if (c.op == "pose") {
      int s = c.i(); j.i("s", s); w[s].tf = mkPose(c, j);
    } else if (c.op == "thr") {      // slot, occupied from, free up to (probabilities; negative: leave)
      int s = c.i(); double o = c.d(), f = c.d(); auto* t = static_cast<OcTree<double>*>(w[s].g.get());
      if (o > 0) t->setOccupancyThres(o);
      if (f > 0) t->setFreeThres(f);
      j.i("s", s).d("occ", o).d("free", f).d("gocc", t->getOccupancyThres()).d("gfree", t->getFreeThres());
    } else if (c.op == "inspect") {  // what the octree says about itself
      int s = c.i(); auto* t = static_cast<OcTree<double>*>(w[s].g.get());
      std::vector<std::string> boxes, cells;
      for (auto& b : t->toBoxes()) { J o; o.v3("c", V3(b[0], b[1], b[2])).d("size", b[3]).d("occ", b[4]); boxes.push_back(o.done()); }
      for (auto it = w[s].oct->begin_leafs(); it != w[s].oct->end_leafs(); ++it) {
        J o; o.b("occ", t->isNodeOccupied(&*it)).b("free", t->isNodeFree(&*it)).b("unc", t->isNodeUncertain(&*it)); cells.push_back(o.done()); }
      // walk from the root by child boxes: the leaves of the library's own recursion
      std::vector<std::string> walk;
      std::function<void(const OcTree<double>::OcTreeNode*, const AABB<double>&)> rec = [&](const OcTree<double>::OcTreeNode* n, const AABB<double>& bv) {
        if (!t->nodeHasChildren(n)) { J o; o.i("leaf", part(w[s], n - t->getRoot())).v3("lo", bv.min_).v3("hi", bv.max_); walk.push_back(o.done()); return; }
        for (unsigned k = 0; k < 8; ++k) if (t->nodeChildExists(n, k)) { AABB<double> b; computeChildBV(bv, k, b); rec(t->getNodeChild(n, k), b); }
      };
      if (t->getRoot()) rec(t->getRoot(), t->getRootBV());
      AABB<double> rb = t->getRootBV();
      j.i("s", s).raw("boxes", list(boxes)).raw("flags", list(cells)).raw("walk", list(walk)).v3("rlo", rb.min_).v3("rhi", rb.max_)
       .v3("llo", t->aabb_local.min_).v3("lhi", t->aabb_local.max_).v3("lc", t->aabb_center).d("lr", t->aabb_radius)
       .b("type", t->getObjectType() == OT_OCTREE && t->getNodeType() == GEOM_OCTREE);
    } else if (c.op == "lookup") {   // slot, leaf, point inside it
      int s = c.i(), k = c.i() % std::max(1, (int)w[s].oct->getNumLeafNodes()); V3 u = rdv(c); auto* t = static_cast<OcTree<double>*>(w[s].g.get());
      int q = 0; long long id = -7; V3 x(0, 0, 0); int depth = -1;
      for (auto it = w[s].oct->begin_leafs(); it != w[s].oct->end_leafs(); ++it, ++q) if (q == k) {
        id = &*it - t->getRoot(); double z = it.getSize() / 2; x = V3(it.getX() + u[0] * z, it.getY() + u[1] * z, it.getZ() + u[2] * z); depth = it.getDepth(); }
      AABB<double> bb; bb.min_ = bb.max_ = V3(0, 0, 0); octomap::OcTreeKey key; unsigned d = 99;
      auto* n = t->getNodeByQueryCellId(id, x, &bb, &key, &d);
      auto* n2 = t->getNodeByQueryCellId(id, x);
      j.i("s", s).i("leaf", k).v3("x", x).i("got", n ? part(w[s], n - t->getRoot()) : -1).b("same", n == n2).v3("lo", bb.min_).v3("hi", bb.max_).b("depth", (int)d == depth);
    } else if (c.op == "tally") {
    } else if (c.op == "collide") {
      int a = c.i(), b = c.i(); std::string sv = c.w(); int n = c.i(), con = c.i(), how = c.i();
      CollisionRequest<double> rq(n, con != 0); rq.gjk_solver_type = solver(sv);
      CollisionResult<double> rs;
      size_t r;
      if (how == 0) r = collide(w[a].g.get(), w[a].tf, w[b].g.get(), w[b].tf, rq, rs);
      else { CollisionObject<double> oa(w[a].g, w[a].tf), ob(w[b].g, w[b].tf); r = collide(&oa, &ob, rq, rs); }
      std::vector<std::string> cs;
      for (size_t k = 0; k < rs.numContacts(); ++k) {
        auto& q = rs.getContact(k);
        int o1 = which(w, a, b, q.o1), o2 = which(w, a, b, q.o2);
        J o; o.v3("n", q.normal).v3("p", q.pos).d("d", q.penetration_depth).i("o1", o1).i("o2", o2)
            .i("c1", o1 < 0 ? -9 : part(w[o1], q.b1)).i("c2", o2 < 0 ? -9 : part(w[o2], q.b2));
        cs.push_back(o.done());
      }
      j.i("a", a).i("b", b).str("sv", sv).i("max", n).i("con", con).i("ret", (long long)r).b("res", rs.isCollision()).raw("cs", list(cs));
    } else if (c.op == "distance") {
      int a = c.i(), b = c.i(); std::string sv = c.w(); int sig = c.i(), np = c.i(), how = c.i();
      DistanceRequest<double> rq(np != 0, sig != 0); rq.gjk_solver_type = solver(sv);
      DistanceResult<double> rs;
      rs.nearest_points[0] = rs.nearest_points[1] = V3(std::nan(""), std::nan(""), std::nan(""));
      double r;
      if (how == 0) r = distance(w[a].g.get(), w[a].tf, w[b].g.get(), w[b].tf, rq, rs);
      else { CollisionObject<double> oa(w[a].g, w[a].tf), ob(w[b].g, w[b].tf); r = distance(&oa, &ob, rq, rs); }
      int o1 = which(w, a, b, rs.o1), o2 = which(w, a, b, rs.o2);
      // the cell can be found again from the id and the nearest point
      auto again = [&](int o, long long id, const V3& p) {
        if (o < 0 || !w[o].oct || !p.allFinite()) return -2;
        auto* t = static_cast<OcTree<double>*>(w[o].g.get());
        auto* n = t->getNodeByQueryCellId(id, w[o].tf.inverse() * p);
        return n ? part(w[o], n - t->getRoot()) : -1;
      };
      j.i("a", a).i("b", b).str("sv", sv).i("sig", sig).i("np", np).d("ret", r).d("min", rs.min_distance)
       .v3("p1", rs.nearest_points[0]).v3("p2", rs.nearest_points[1]).i("o1", o1).i("o2", o2)
       .i("c1", o1 < 0 ? -9 : part(w[o1], rs.b1)).i("c2", o2 < 0 ? -9 : part(w[o2], rs.b2))
       .i("g1", again(o1, rs.b1, rs.nearest_points[0])).i("g2", again(o2, rs.b2, rs.nearest_points[1]));
    } else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    emit(j);
  }
}
int main(int argc, char** argv) { return run(argc, argv, history); }
