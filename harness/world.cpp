// Whole queries: managers of objects with real geometries, the library's own
// callbacks, and what a user gets out of them.
#include "geo.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
using namespace hv;
typedef BroadPhaseCollisionManager<double> Mgr;
typedef CollisionObject<double> Obj;

static Mgr* make(Cmd& h) {
  bool asGeo = h.i();
  int kind = h.i(), p0 = h.i(), p1 = h.i(), p2 = h.i();
  switch (kind) {
    case 0: return new NaiveCollisionManager<double>();
    case 1: return new SSaPCollisionManager<double>();
    case 2: return new SaPCollisionManager<double>();
    case 3: return new IntervalTreeCollisionManager<double>();
    case 4: return new SpatialHashingCollisionManager<double>(p0, Vector3<double>(p1, p1, p1), Vector3<double>(p2, p2, p2));
    case 5: { typedef detail::SparseHashTable<AABB<double>, Obj*, detail::SpatialHash<double>> HT;
      return new SpatialHashingCollisionManager<double, HT>(p0, Vector3<double>(p1, p1, p1), Vector3<double>(p2, p2, p2)); }
    case 6: { auto* m = new DynamicAABBTreeCollisionManager<double>(); m->tree_init_level = p0; m->tree_topdown_level = p1;
      if (p2) { m->tree_topdown_balance_threshold = p2; m->tree_incremental_balance_pass = p2 % 5; m->max_tree_nonbalanced_level = p2 % 7; } m->octree_as_geometry_collide = m->octree_as_geometry_distance = asGeo; return m; }
    case 7: { auto* m = new DynamicAABBTreeCollisionManager_Array<double>(); m->tree_init_level = p0; m->tree_topdown_level = p1;
      if (p2) { m->tree_topdown_balance_threshold = p2; m->tree_incremental_balance_pass = p2 % 5; m->max_tree_nonbalanced_level = p2 % 7; } m->octree_as_geometry_collide = m->octree_as_geometry_distance = asGeo; return m; }
  }
  _exit(98);
}


static GJKSolverType solver(const std::string& s) { return s == "i" ? GST_INDEP : GST_LIBCCD; }

static std::string costs(const CollisionResult<double>& r) {
  std::vector<CostSource<double>> v; const_cast<CollisionResult<double>&>(r).getCostSources(v);
  std::vector<std::string> s;
  for (auto& c : v) s.push_back("[" + J::vec(c.aabb_min) + "," + J::vec(c.aabb_max) + "," + nums({c.cost_density}) + "]");
  return list(s);
}
static void history(History& h) {
  std::map<int, Body> w;
  std::map<int, std::unique_ptr<Obj>> objs;
  std::unique_ptr<Mgr> m[2];
  { Cmd c = h.hdr; m[0].reset(make(c)); }
  { Cmd c = h.hdr; m[1].reset(make(c)); }
  auto slotOf = [&](const void* g) { for (auto& p : w) if (p.second.g.get() == g) return p.first; return -1; };
  // what the pairs of objects cost by themselves, in either order
  auto pairCosts = [&](CollisionRequest<double> rq) {
    std::vector<std::string> out;
    for (auto& x : objs) for (auto& y : objs) if (x.first < y.first) {
      CollisionResult<double> r, u; collide(x.second.get(), y.second.get(), rq, r); collide(y.second.get(), x.second.get(), rq, u);
      if (r.numCostSources() || u.numCostSources()) { J o; o.i("a", x.first).i("b", y.first).raw("ab", costs(r)).raw("ba", costs(u)); out.push_back(o.done()); }
    }
    return list(out); };
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op);
    if (c.op == "shape" || c.op == "mesh" || c.op == "octree") {
      int s = c.i(); j.i("s", s);
      w[s] = c.op == "shape" ? mkShape(c, j) : c.op == "mesh" ? mkMesh(c, j) : mkOct(c, j);
      objs[s].reset(new Obj(w[s].g));
    } else if (c.op == "pose") {        // the manager is told later
      int s = c.i(); j.i("s", s); w[s].tf = mkPose(c, j); objs[s]->setTransform(w[s].tf); objs[s]->computeAABB();
    } else if (c.op == "cost") { int s = c.i(); w[s].g->cost_density = c.d(); j.i("s", s).d("cd", w[s].g->cost_density);
    } else if (c.op == "reg") { int k = c.i(), s = c.i(); m[k]->registerObject(objs[s].get()); j.i("m", k).i("s", s);
    } else if (c.op == "unreg") { int k = c.i(), s = c.i(); m[k]->unregisterObject(objs[s].get()); j.i("m", k).i("s", s);
    } else if (c.op == "setup") { int k = c.i(); m[k]->setup(); j.i("m", k);
    } else if (c.op == "update") { int k = c.i(); if (c.more()) { int s = c.i(); m[k]->update(objs[s].get()); } else m[k]->update(); j.i("m", k);
    } else if (c.op == "collide") {     // manager, what (self, obj <slot>, mgr), solver, max, contacts
      int k = c.i(); std::string what = c.w(); int s = c.i(); std::string sv = c.w(); int n = c.i(), con = c.i(), cost = c.i();
      DefaultCollisionData<double> d; d.request = CollisionRequest<double>(n, con != 0, 100000, cost != 0, false);   // estimated costs are there without an intersection, too
      d.request.gjk_solver_type = solver(sv);
      auto go = [&] {
        if (what == "self") m[k]->collide(&d, DefaultCollisionFunction<double>);
        else if (what == "obj") m[k]->collide(objs[s].get(), &d, DefaultCollisionFunction<double>);
        else m[k]->collide(m[1 - k].get(), &d, DefaultCollisionFunction<double>); };
      go();
      std::vector<std::pair<int, int>> ps;
      for (size_t q = 0; q < d.result.numContacts(); ++q) { auto& x = d.result.getContact(q); ps.push_back({slotOf(x.o1), slotOf(x.o2)}); }
      std::vector<Contact<double>> cs; d.result.getContacts(cs);
      size_t cnt = d.result.numContacts();
      bool first = d.done; if (first) go();      // a finished query stays as it is
      j.i("m", k).str("what", what).i("s", s).str("sv", sv).i("max", n).i("con", con).pairs("ps", ps).i("cnt", (long long)cnt).i("copied", (long long)cs.size())
       .b("res", d.result.isCollision()).b("done", first).b("stays", d.result.numContacts() == cnt && d.done == first).i("cost", cost).raw("costs", costs(d.result)).raw("own", cost ? pairCosts(d.request) : "[]");
    } else if (c.op == "distance") {
      int k = c.i(); std::string what = c.w(); int s = c.i(); std::string sv = c.w(); int np = c.i();
      DefaultDistanceData<double> d; d.request = DistanceRequest<double>(np != 0); d.request.gjk_solver_type = solver(sv);
      if (what == "self") m[k]->distance(&d, DefaultDistanceFunction<double>);
      else if (what == "obj") m[k]->distance(objs[s].get(), &d, DefaultDistanceFunction<double>);
      else m[k]->distance(m[1 - k].get(), &d, DefaultDistanceFunction<double>);
      j.i("m", k).str("what", what).i("s", s).str("sv", sv).i("np", np).d("min", d.result.min_distance).i("o1", slotOf(d.result.o1)).i("o2", slotOf(d.result.o2))
       .v3("p1", d.result.nearest_points[0]).v3("p2", d.result.nearest_points[1]);
    } else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    emit(j);
  }
}
static std::string header(History& h) {
  return std::string("\"name\":\"") + h.id.substr(0, h.id.find('-')) + "\",\"asGeo\":" + h.hdr.t[1] + ",\"kind\":" + h.hdr.t[2] + ",";
}
int main(int argc, char** argv) { return run(argc, argv, history, header); }
