// What a request asks for and what a result collects: limits, accumulation over
// several calls, warm starts, cost sources.
#include "geo.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace hv;

static GJKSolverType solver(const std::string& s) { return s == "i" ? GST_INDEP : GST_LIBCCD; }
static int leafOf(const Body& b, long long id) {
  auto* t = static_cast<const OcTree<double>*>(b.g.get());
  int k = 0;
  for (auto it = b.oct->begin_leafs(); it != b.oct->end_leafs(); ++it, ++k)
    if (&*it - t->getRoot() == id) return k;
  return -1;
}
static int part(const Body& b, long long id) { return b.oct ? leafOf(b, id) : (int)id; }

// cells the octree knows nothing about: missing children of inner nodes, with the occupancy of their parent
static void unknown(const octomap::OcTree& t, const octomap::OcTreeNode* n, V3 lo, double size, std::vector<std::string>& out) {
  for (int k = 0; k < 8; ++k) {
    V3 a = lo + size / 2 * V3(k & 1, (k >> 1) & 1, k >> 2);
    if (t.nodeChildExists(n, k)) { auto* ch = t.getNodeChild(n, k); if (t.nodeHasChildren(ch)) unknown(t, ch, a, size / 2, out); }
    else { J o; o.v3("lo", a).v3("hi", V3(a + V3::Constant(size / 2))).d("pr", n->getOccupancy()); out.push_back(o.done()); }
  }
}
static std::string costs(const CollisionResult<double>& r) {
  std::vector<CostSource<double>> v; const_cast<CollisionResult<double>&>(r).getCostSources(v);
  std::vector<std::string> s;
  for (auto& c : v) { J o; o.v3("lo", c.aabb_min).v3("hi", c.aabb_max).d("den", c.cost_density).d("tot", c.total_cost); s.push_back(o.done()); }
  return list(s);
}
template <class BV> static bool rootBox(const Body& b, AABB<double>& out) {
  auto* m = dynamic_cast<BVHModel<BV>*>(b.g.get());
  if (!m) return false;
  Box<double> box; Tf tf; constructBox(m->getBV(0).bv, b.tf, box, tf); computeBV(box, tf, out);
  return true;
}
// the box around an object that costs are estimated with
static AABB<double> around(const Body& b) {
  AABB<double> r;
  rootBox<AABB<double>>(b, r) || rootBox<OBB<double>>(b, r) || rootBox<RSS<double>>(b, r) || rootBox<kIOS<double>>(b, r) || rootBox<OBBRSS<double>>(b, r) ||
  rootBox<KDOP<double, 16>>(b, r) || rootBox<KDOP<double, 18>>(b, r) || rootBox<KDOP<double, 24>>(b, r);
#define TRY(T) if (auto* s = dynamic_cast<const T<double>*>(b.g.get())) computeBV(*s, b.tf, r);
  TRY(Sphere) TRY(Box) TRY(Ellipsoid) TRY(Capsule) TRY(Cone) TRY(Cylinder) TRY(Convex) TRY(TriangleP)
#undef TRY
  return r;
}

static void history(History& h) {
  std::map<int, Body> w;
  CollisionResult<double> rs;
  DistanceResult<double> ds;
  auto slotOf = [&](const void* g) { for (auto& p : w) if (p.second.g.get() == g) return p.first; return -1; };
  auto contact = [&](const Contact<double>& q) {
    int o1 = slotOf(q.o1), o2 = slotOf(q.o2);
    return "[" + std::to_string(o1) + "," + std::to_string(o2) + "," + std::to_string(o1 < 0 ? -9 : part(w[o1], q.b1)) + "," + std::to_string(o2 < 0 ? -9 : part(w[o2], q.b2)) + "]"; };
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op);
    if (c.op == "shape" || c.op == "mesh" || c.op == "octree") {
      int s = c.i(); j.i("s", s);
      w[s] = c.op == "shape" ? mkShape(c, j) : c.op == "mesh" ? mkMesh(c, j) : mkOct(c, j);
      std::vector<std::string> u;
      if (w[s].oct) { auto* t = static_cast<OcTree<double>*>(w[s].g.get()); AABB<double> bv = t->getRootBV();
        if (!t->getRoot()) { J o; o.v3("lo", bv.min_).v3("hi", bv.max_).d("pr", 1); u.push_back(o.done()); }   // nothing is known at all
        else if (w[s].oct->nodeHasChildren(t->getRoot())) unknown(*w[s].oct, t->getRoot(), bv.min_, bv.max_[0] - bv.min_[0], u); }
      j.raw("unk", list(u));
    } else if (c.op == "pose") {
      int s = c.i(); j.i("s", s); w[s].tf = mkPose(c, j);
    } else if (c.op == "cost") {     // slot, density, occupied from, free up to
      int s = c.i(); auto& g = *w[s].g; g.cost_density = c.d(); g.threshold_occupied = c.d(); g.threshold_free = c.d();
      j.i("s", s).d("cd", g.cost_density).d("occ", g.threshold_occupied).d("free", g.threshold_free).b("isOcc", g.isOccupied()).b("isFree", g.isFree()).b("isUnc", g.isUncertain());
    } else if (c.op == "thr") {      // an octree's thresholds
      int s = c.i(); double o = c.d(), f = c.d(); auto* t = static_cast<OcTree<double>*>(w[s].g.get());
      if (o > 0) t->setOccupancyThres(o);
      if (f > 0) t->setFreeThres(f);
      j.i("s", s).d("occ", t->getOccupancyThres()).d("free", t->getFreeThres());
    } else if (c.op == "clear") { rs.clear(); ds.clear(); j.b("res", rs.isCollision()).i("cnt", (long long)rs.numContacts()).i("costs", (long long)rs.numCostSources()).d("min", ds.min_distance);
    } else if (c.op == "collide") {  // a, b, solver, max, contacts, costs wanted, approximately, how many, guess, tolerance exponent, how
      int a = c.i(), b = c.i(); std::string sv = c.w(); int n = c.i(), con = c.i(), cost = c.i(), ap = c.i(), nc = c.i(), guess = c.i(), tol = c.i(), how = c.i();
      CollisionRequest<double> rq(n, con != 0, nc, cost != 0, ap != 0, solver(sv), std::pow(10.0, -tol));
      if (guess) { rq.enable_cached_gjk_guess = true; V3 g(c.d(), c.d(), c.d()); rq.cached_gjk_guess = guess == 1 ? g : V3(rs.cached_gjk_guess); }
      std::vector<Contact<double>> old; rs.getContacts(old);
      bool sat0 = rq.isSatisfied(rs);
      size_t r;
      auto go = [&](const CollisionRequest<double>& q, CollisionResult<double>& res) {
        if (how == 0) return collide(w[a].g.get(), w[a].tf, w[b].g.get(), w[b].tf, q, res);
        CollisionObject<double> oa(w[a].g, w[a].tf), ob(w[b].g, w[b].tf); return collide(&oa, &ob, q, res); };
      r = go(rq, rs);
      std::vector<std::string> cs; std::vector<double> depth;
      bool kept = rs.numContacts() >= old.size();
      for (size_t k = 0; k < rs.numContacts(); ++k) {
        auto& q = rs.getContact(k); cs.push_back(contact(q));
        if (k >= old.size()) { if (con) depth.push_back(q.penetration_depth); }
        else kept = kept && q.o1 == old[k].o1 && q.o2 == old[k].o2 && q.b1 == old[k].b1 && q.b2 == old[k].b2 && memcmp(&q.penetration_depth, &old[k].penetration_depth, sizeof(double)) == 0 && memcmp(&q.pos, &old[k].pos, sizeof(V3)) == 0;
      }
      std::vector<double> full;       // all depths, of a query of its own
      if (con && w[a].kind != "mesh" && w[b].kind != "mesh" && !w[a].oct && !w[b].oct) {
        CollisionRequest<double> rf(rq); rf.num_max_contacts = 1000; rf.enable_cost = false; CollisionResult<double> x; go(rf, x);
        for (size_t k = 0; k < x.numContacts(); ++k) full.push_back(x.getContact(k).penetration_depth);
      }
      AABB<double> x = around(w[a]), y = around(w[b]);
      j.i("a", a).i("b", b).str("sv", sv).i("max", n).i("con", con).i("cost", cost).i("ap", ap).i("nc", nc).i("guess", guess).i("tol", tol).i("ret", (long long)r)
       .b("sat0", sat0).b("sat", rq.isSatisfied(rs)).b("res", rs.isCollision()).b("kept", kept).raw("cs", list(cs)).raw("dp", nums(depth)).raw("full", nums(full))
       .raw("costs", costs(rs)).raw("ab", list({J::vec(x.min_), J::vec(x.max_), J::vec(y.min_), J::vec(y.max_)}));
    } else if (c.op == "distance") {
      int a = c.i(), b = c.i(); std::string sv = c.w(); int np = c.i(), tol = c.i(), how = c.i();
      DistanceRequest<double> rq(np != 0, false, 0, 0, std::pow(10.0, -tol), solver(sv));
      bool sat0 = rq.isSatisfied(ds);
      double r;
      if (how == 2) {                // asked with a result of its own, which is then merged
        DistanceResult<double> x; r = distance(w[a].g.get(), w[a].tf, w[b].g.get(), w[b].tf, rq, x); ds.update(x); r = std::min(r, ds.min_distance);
      } else if (how == 0) r = distance(w[a].g.get(), w[a].tf, w[b].g.get(), w[b].tf, rq, ds);
      else { CollisionObject<double> oa(w[a].g, w[a].tf), ob(w[b].g, w[b].tf); r = distance(&oa, &ob, rq, ds); }
      int o1 = slotOf(ds.o1), o2 = slotOf(ds.o2);
      j.i("a", a).i("b", b).str("sv", sv).i("np", np).i("tol", tol).i("how", how).b("sat0", sat0).b("sat", rq.isSatisfied(ds)).d("ret", r).d("min", ds.min_distance)
       .i("o1", o1).i("o2", o2).i("c1", o1 < 0 ? -9 : part(w[o1], ds.b1)).i("c2", o2 < 0 ? -9 : part(w[o2], ds.b2)).v3("p1", ds.nearest_points[0]).v3("p2", ds.nearest_points[1]);
    } else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    emit(j);
  }
}
int main(int argc, char** argv) { return run(argc, argv, history); }
