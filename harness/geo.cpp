// Narrowphase conformance harness: places shapes, meshes and octrees and
// records collision and distance queries.
#include "geo.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace hv;

static GJKSolverType solver(const std::string& s) { return s == "i" ? GST_INDEP : GST_LIBCCD; }

static void history(History& h) {
  std::map<int, Body> w;
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op);
    if (c.op == "shape" || c.op == "mesh" || c.op == "octree") {
      int s = c.i(); j.i("s", s);
      Tf keep = w.count(s) ? w[s].tf : Tf::Identity();
      w[s] = c.op == "shape" ? mkShape(c, j) : c.op == "mesh" ? mkMesh(c, j) : mkOct(c, j);
      w[s].tf = keep;
    } else if (c.op == "pose") {
      int s = c.i(); j.i("s", s); w[s].tf = mkPose(c, j);
    } else if (c.op == "known") {     // facts the generator constructed; checked by the specification
      j.str("what", c.w()); j.v3("n", rdv(c)); j.d("g", c.d());
      j.v3("pa", rdv(c)); j.v3("pb", rdv(c));
    } else if (c.op == "tally") {
    } else if (c.op == "collide") {
      int a = c.i(), b = c.i(); std::string sv = c.w(); int n = c.i(), con = c.i(), how = c.i();
      CollisionRequest<double> rq(n, con != 0); rq.gjk_solver_type = solver(sv);
      CollisionResult<double> rs;
      size_t r;
      if (how == 0) r = collide(w[a].g.get(), w[a].tf, w[b].g.get(), w[b].tf, rq, rs);
      else { CollisionObject<double> oa(w[a].g, w[a].tf), ob(w[b].g, w[b].tf); r = collide(&oa, &ob, rq, rs); }
      std::vector<std::string> cs;
      for (size_t k = 0; k < rs.numContacts(); ++k) {
        auto& q = rs.getContact(k);
        J o; o.v3("n", q.normal).v3("p", q.pos).d("d", q.penetration_depth).i("b1", q.b1).i("b2", q.b2)
            .i("o1", q.o1 == w[a].g.get() ? (a == b ? 1 : 1) : q.o1 == w[b].g.get() ? 2 : 0)
            .i("o2", q.o2 == w[b].g.get() ? 2 : q.o2 == w[a].g.get() ? 1 : 0);
        cs.push_back(o.done());
      }
      j.i("a", a).i("b", b).str("sv", sv).i("max", n).i("con", con).i("ret", (long long)r).b("res", rs.isCollision()).raw("cs", list(cs));
    } else if (c.op == "distance") {
      int a = c.i(), b = c.i(); std::string sv = c.w(); int sig = c.i(), np = c.i(), how = c.i();
      DistanceRequest<double> rq(np != 0, sig != 0); rq.gjk_solver_type = solver(sv);
      DistanceResult<double> rs;
      rs.nearest_points[0] = rs.nearest_points[1] = V3(std::nan(""), std::nan(""), std::nan(""));
      double r;
      try {
      if (how == 0) r = distance(w[a].g.get(), w[a].tf, w[b].g.get(), w[b].tf, rq, rs);
      else { CollisionObject<double> oa(w[a].g, w[a].tf), ob(w[b].g, w[b].tf); r = distance(&oa, &ob, rq, rs); }
      } catch (const std::exception& x) {
        // the library's declared way to give up on a configuration
        if (getenv("HV_VERBOSE")) fprintf(stderr, "%s\n", x.what());
        emit(J().str("op", "refused").i("a", a).i("b", b).str("sv", sv).i("sig", sig)); continue;
      }
      j.i("a", a).i("b", b).str("sv", sv).i("sig", sig).i("np", np).d("ret", r).d("min", rs.min_distance)
       .v3("p1", rs.nearest_points[0]).v3("p2", rs.nearest_points[1]).i("b1", rs.b1).i("b2", rs.b2)
       .i("o1", rs.o1 == w[a].g.get() ? 1 : rs.o1 == w[b].g.get() ? 2 : 0).i("o2", rs.o2 == w[b].g.get() ? 2 : rs.o2 == w[a].g.get() ? 1 : 0);
    } else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    emit(j);
  }
}
int main(int argc, char** argv) { return run(argc, argv, history); }
