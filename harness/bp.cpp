// Broadphase conformance harness: executes histories of public calls on the
// seven broadphase managers and records every call with its observable result.
#include "common.h"
#include <memory>
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
using namespace fcl;
using hv::J; using hv::Cmd; using hv::History;
typedef BroadPhaseCollisionManager<double> Mgr;
typedef CollisionObject<double> Obj;

// A geometry whose only property is its (integer) bounding box: the broadphase
// may look at nothing else.
struct Blob : CollisionGeometry<double> {
  int b[6];
  void computeLocalAABB() override {
    this->aabb_local.min_ = Vector3<double>(b[0], b[1], b[2]);
    this->aabb_local.max_ = Vector3<double>(b[3], b[4], b[5]);
    this->aabb_center = this->aabb_local.center();
    this->aabb_radius = (this->aabb_local.min_ - this->aabb_center).norm();
  }
  OBJECT_TYPE getObjectType() const override { return OT_GEOM; }
  NODE_TYPE getNodeType() const override { return GEOM_BOX; }
};

struct World {
  std::map<int, std::unique_ptr<Obj>> objs;
  std::map<int, std::shared_ptr<Blob>> geo;
  std::unique_ptr<Mgr> m[2];
  // split the position between geometry and transform so that both matter
  void place(int id, const int* b) {
    int t[3] = {(id % 5) - 2, (id % 3), -(id % 4)};
    auto& g = geo[id];
    bool fresh = !g;
    if (fresh) g = std::make_shared<Blob>();
    for (int k = 0; k < 6; ++k) g->b[k] = b[k] - t[k % 3];
    if (fresh) {
      objs[id].reset(new Obj(g));
      objs[id]->setUserData((void*)(intptr_t)id);
    }
    g->computeLocalAABB();
    objs[id]->setTranslation(Vector3<double>(t[0], t[1], t[2]));
    objs[id]->computeAABB();
  }
  Obj* o(int id) { return objs.at(id).get(); }
};
static int idOf(Obj* o) { return (int)(intptr_t)o->getUserData(); }

struct CD { std::vector<std::pair<int,int>> pairs; int stop = 0; bool more = false; };
static bool ccb(Obj* a, Obj* b, void* d) {
  CD* c = (CD*)d;
  c->pairs.push_back({idOf(a), idOf(b)});
  if (c->pairs.size() > 200000) raise(SIGALRM);
  return c->stop && (int)c->pairs.size() >= c->stop;
}
// squared distance between the boxes plus a non-negative per-object surplus
// (shapes lie inside their boxes, so true distances are at least box distances)
static double dist2(Obj* a, Obj* b) {
  double s = 0;
  for (int k = 0; k < 3; ++k) {
    double g = std::max(a->getAABB().min_[k] - b->getAABB().max_[k], b->getAABB().min_[k] - a->getAABB().max_[k]);
    if (g > 0) s += g * g;
  }
  auto extra = [](int id) { return id < 0 ? 0 : id * 7 % 4; };
  return s + extra(idOf(a)) + extra(idOf(b));
}
struct DD { std::vector<std::pair<int,int>> pairs; double best = -1; double bestd = 0; int mode = 0; int after = 0; bool stopped = false; };
static bool dcb(Obj* a, Obj* b, void* d, double& dist) {
  DD* c = (DD*)d;
  c->pairs.push_back({idOf(a), idOf(b)});
  if (c->stopped) ++c->after;
  if (c->pairs.size() > 200000) raise(SIGALRM);
  double v = dist2(a, b);
  if (c->best < 0 || v < c->best) { c->best = v; c->bestd = std::sqrt(v); }
  dist = c->bestd;
  // 1: the usual early out, a contact was found; k > 1: after k - 1 pairs
  c->stopped = c->stopped || (c->mode == 1 && c->best <= 0) || (c->mode > 1 && (int)c->pairs.size() >= c->mode - 1);
  return c->stopped;
}

static Mgr* make(Cmd& h) {
  int kind = h.i(), p0 = h.i(), p1 = h.i(), p2 = h.i();
  switch (kind) {
    case 0: return new NaiveCollisionManager<double>();
    case 1: return new SSaPCollisionManager<double>();
    case 2: return new SaPCollisionManager<double>();
    case 3: return new IntervalTreeCollisionManager<double>();
    case 4: return new SpatialHashingCollisionManager<double>(p0, Vector3<double>(p1, p1, p1), Vector3<double>(p2, p2, p2));
    case 5: { typedef detail::SparseHashTable<AABB<double>, Obj*, detail::SpatialHash<double>> HT;
      return new SpatialHashingCollisionManager<double, HT>(p0, Vector3<double>(p1, p1, p1), Vector3<double>(p2, p2, p2)); }
    case 6: { auto* m = new DynamicAABBTreeCollisionManager<double>(); m->tree_init_level = p0; m->tree_topdown_level = p1;
      if (p2) { m->tree_topdown_balance_threshold = p2; m->tree_incremental_balance_pass = p2 % 5; m->max_tree_nonbalanced_level = p2 % 7; } return m; }
    case 7: { auto* m = new DynamicAABBTreeCollisionManager_Array<double>(); m->tree_init_level = p0; m->tree_topdown_level = p1;
      if (p2) { m->tree_topdown_balance_threshold = p2; m->tree_incremental_balance_pass = p2 % 5; m->max_tree_nonbalanced_level = p2 % 7; } return m; }
  }
  _exit(98);
}

static void observe(J& j, Mgr* m) {
  std::vector<Obj*> v;
  v.push_back(nullptr);           // getObjects must deliver exactly the members
  m->getObjects(v);
  std::vector<int> ids;
  for (Obj* o : v) if (o) ids.push_back(idOf(o));
  j.seq("objs", ids).i("size", (long long)m->size()).b("empty", m->empty());
}

static void history(History& h) {
  World w;
  { Cmd c = h.hdr; w.m[0].reset(make(c)); }
  { Cmd c = h.hdr; w.m[1].reset(make(c)); }
  for (Cmd c : h.cmds) {
    auto box = [&](std::vector<int>& v) { for (int k = 0; k < 6; ++k) v.push_back(c.i()); };
    auto many = [&](std::vector<int>& ids, std::vector<std::string>& bx) {
      int n = c.i();
      for (int k = 0; k < n; ++k) {
        int id = c.i(); std::vector<int> b; box(b);
        w.place(id, b.data()); ids.push_back(id);
        std::string s = "["; for (int q = 0; q < 6; ++q) { if (q) s += ","; s += std::to_string(b[q]); } bx.push_back(s + "]");
      } };
    int mi = c.i(); Mgr* m = w.m[mi].get();
    std::string opn = c.op;
    if (opn == "upd1" || opn == "updN" || opn == "updA") opn = "upd";
    if (opn == "mms") opn = "self";
    if (opn == "dmms") opn = "dself";
    J j; j.str("op", opn).str("how", c.op).i("m", mi);
    if (c.op == "reg" || c.op == "reg1") {
      std::vector<int> ids; std::vector<std::string> bx; many(ids, bx);
      if (c.op == "reg1") for (int id : ids) m->registerObject(w.o(id));
      else { std::vector<Obj*> v; for (int id : ids) v.push_back(w.o(id)); m->registerObjects(v); }
      j.seq("ids", ids).raw("bx", hv::list(bx));
    } else if (c.op == "unreg") {
      int id = c.i(); m->unregisterObject(w.o(id)); j.i("o", id);
      if (c.more()) { w.objs.erase(id); w.geo.erase(id); }   // the object may go away afterwards
    } else if (c.op == "setup") { m->setup();
    } else if (c.op == "clear") { m->clear();
    } else if (c.op == "upd1" || c.op == "updN" || c.op == "updA") {
      std::vector<int> ids; std::vector<std::string> bx; many(ids, bx);
      if (c.op == "upd1") for (int id : ids) m->update(w.o(id));
      else if (c.op == "updA") m->update();
      else { std::vector<Obj*> v; for (int id : ids) v.push_back(w.o(id)); m->update(v); }
      j.seq("ids", ids).raw("bx", hv::list(bx));
    } else if (c.op == "self") {
      CD d; d.stop = c.i(); m->collide(&d, ccb);
      j.i("stop", d.stop).pairs("pairs", d.pairs);
    } else if (c.op == "obj") {
      CD d; d.stop = c.i(); std::vector<int> b; box(b); w.place(-1, b.data());
      m->collide(w.o(-1), &d, ccb);
      j.i("stop", d.stop).seq("q", b).pairs("pairs", d.pairs);
    } else if (c.op == "mm") {
      CD d; d.stop = c.i(); m->collide(w.m[1 - mi].get(), &d, ccb);
      j.i("stop", d.stop).pairs("pairs", d.pairs);
    } else if (c.op == "mms") {   // a manager against itself
      CD d; d.stop = c.i(); m->collide(m, &d, ccb);
      j.i("stop", d.stop).pairs("pairs", d.pairs);
    } else if (c.op == "dself" || c.op == "dmms") {
      DD d; d.mode = c.i(); if (c.op == "dself") m->distance(&d, dcb); else m->distance(m, &d, dcb);
      j.i("mode", d.mode).i("best", (long long)d.best).i("after", d.after).pairs("pairs", d.pairs);
    } else if (c.op == "dobj") {
      DD d; d.mode = c.i(); std::vector<int> b; box(b); w.place(-1, b.data());
      m->distance(w.o(-1), &d, dcb);
      j.i("mode", d.mode).seq("q", b).i("best", (long long)d.best).i("after", d.after).pairs("pairs", d.pairs);
    } else if (c.op == "dmm") {
      DD d; d.mode = c.i(); m->distance(w.m[1 - mi].get(), &d, dcb);
      j.i("mode", d.mode).i("best", (long long)d.best).i("after", d.after).pairs("pairs", d.pairs);
    } else if (c.op == "obs") { observe(j, m);
    } else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    hv::emit(j);
  }
}

int main(int argc, char** argv) { return hv::run(argc, argv, history); }
