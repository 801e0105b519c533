// Motions and continuous collision: poses at a time, bounds of what a motion can
// do, boxes around what it sweeps, times of contact.
#include "geo.h"
#include "fcl/math/bv/RSS.h"
#include "fcl/math/motion/interp_motion.h"
#include "fcl/math/motion/screw_motion.h"
#include "fcl/math/motion/spline_motion.h"
#include "fcl/math/motion/translation_motion.h"
#include "fcl/math/motion/tbv_motion_bound_visitor.h"
#include "fcl/math/motion/triangle_motion_bound_visitor.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/narrowphase/continuous_collision_object.h"
using namespace hv;

typedef std::shared_ptr<MotionBase<double>> Mo;
struct Moving { Mo m; std::string kind; Tf a, b; };

static Tf rdTf(Cmd& c) { J x; return mkPose(c, x); }
static void pose(J& j, const char* r, const char* t, const Tf& x) { j.raw(r, matJ(x.linear())).v3(t, x.translation()); }
static std::vector<V3> vertices(const Body& b) {
  std::vector<V3> r;
#define TRY(T) if (auto* m = dynamic_cast<BVHModel<T>*>(b.g.get())) for (int k = 0; k < m->num_vertices; ++k) r.push_back(m->vertices[k]);
  typedef KDOP<double, 16> K16; typedef KDOP<double, 18> K18; typedef KDOP<double, 24> K24;
  TRY(AABB<double>) TRY(OBB<double>) TRY(RSS<double>) TRY(kIOS<double>) TRY(OBBRSS<double>) TRY(K16) TRY(K18) TRY(K24)
#undef TRY
  return r;
}

static Moving mkMotion(Cmd& c, J& j) {
  Moving w; w.kind = c.w(); int how = c.i();
  j.str("kind", w.kind).i("how", how);
  if (w.kind == "spline") {
    std::vector<V3> p; for (int k = 0; k < 8; ++k) p.push_back(rdv(c));
    w.m = std::make_shared<SplineMotion<double>>(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
    j.raw("ctl", vecs(p));
    return w;
  }
  Tf a = rdTf(c), b = rdTf(c); w.a = a; w.b = b; V3 O = rdv(c);
  if (w.kind == "trans") {
    auto m = how == 0 ? std::make_shared<TranslationMotion<double>>(a, b) : std::make_shared<TranslationMotion<double>>(Matrix3<double>(a.linear()), V3(a.translation()), V3(b.translation()));
    w.m = m; j.v3("lin", m->getVelocity());
  } else if (w.kind == "linear") {
    std::shared_ptr<InterpMotion<double>> m;
    Matrix3<double> R1 = a.linear(), R2 = b.linear(); V3 T1 = a.translation(), T2 = b.translation();
    if (how == 0) m.reset(new InterpMotion<double>(a, b));
    else if (how == 1) m.reset(new InterpMotion<double>(R1, T1, R2, T2));
    else if (how == 2) m.reset(new InterpMotion<double>(a, b, O));
    else m.reset(new InterpMotion<double>(R1, T1, R2, T2, O));
    w.m = m;
    j.v3("O", how < 2 ? V3(V3::Zero()) : O).v3("axis", m->getAngularAxis()).d("angle", m->getAngularVelocity()).v3("lin", m->getLinearVelocity()).v3("ref", m->getReferencePoint());
  } else {
    std::shared_ptr<ScrewMotion<double>> m;
    if (how == 0) m.reset(new ScrewMotion<double>(a, b));
    else m.reset(new ScrewMotion<double>(Matrix3<double>(a.linear()), V3(a.translation()), Matrix3<double>(b.linear()), V3(b.translation())));
    w.m = m;
    j.v3("axis", m->getAxis()).d("angle", m->getAngularVelocity()).d("lin", m->getLinearVelocity()).v3("org", m->getAxisOrigin());
  }
  pose(j, "R1", "T1", a); pose(j, "R2", "T2", b);
  return w;
}
static bool agree(const MotionBase<double>& m, const Tf& x) {
  Matrix3<double> R, R2; V3 t, t2, t3; Quaternion<double> q, q2;
  m.getCurrentTransform(R, t); m.getCurrentTransform(q, t2); m.getCurrentRotation(R2); m.getCurrentRotation(q2); m.getCurrentTranslation(t3);
  auto nr = [](const Matrix3<double>& a, const Matrix3<double>& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-9; };
  return nr(R, x.linear()) && nr(R2, x.linear()) && nr(q.toRotationMatrix(), x.linear()) && nr(q2.toRotationMatrix(), x.linear()) && t == V3(x.translation()) && t2 == t && t3 == t;
}

static void history(History& h) {
  std::map<int, Body> w; std::map<int, Moving> mv;
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op);
    if (c.op == "shape" || c.op == "mesh" || c.op == "octree") {
      int s = c.i(); j.i("s", s);
      w[s] = c.op == "shape" ? mkShape(c, j) : c.op == "mesh" ? mkMesh(c, j) : mkOct(c, j);
    } else if (c.op == "motion") {
      int k = c.i(); j.i("m", k); mv[k] = mkMotion(c, j);
      Tf x; mv[k].m->getCurrentTransform(x); pose(j, "R", "t", x);
    } else if (c.op == "at") {
      int k = c.i(); double t = c.d();
      bool ok = mv[k].m->integrate(t);
      Tf x; mv[k].m->getCurrentTransform(x);
      j.i("m", k).d("tm", t).b("ok", ok).b("agree", agree(*mv[k].m, x)); pose(j, "R", "t", x);
    } else if (c.op == "bound") {
      int k = c.i(); std::string what = c.w(); double t = c.d(); V3 n = rdv(c); n.normalize(); double mu; std::vector<V3> pts; double rad = 0;
      mv[k].m->integrate(t);
      if (what == "rss") {
        RSS<double> bv; Tf x = rdTf(c); bv.To = x.translation(); bv.axis = x.linear(); bv.l[0] = c.d(); bv.l[1] = c.d(); bv.r = rad = c.d();
        for (int q = 0; q < 4; ++q) pts.push_back(V3(bv.To + bv.axis.col(0) * (q & 1 ? bv.l[0] : 0) + bv.axis.col(1) * (q & 2 ? bv.l[1] : 0)));
        mu = mv[k].m->computeMotionBound(TBVMotionBoundVisitor<RSS<double>>(bv, n));
      } else {
        for (int q = 0; q < 3; ++q) pts.push_back(rdv(c));
        mu = mv[k].m->computeMotionBound(TriangleMotionBoundVisitor<double>(pts[0], pts[1], pts[2], n));
      }
      j.i("m", k).str("what", what).d("tm", t).v3("n", n).raw("pts", vecs(pts)).d("rad", rad).d("mu", mu);
    } else if (c.op == "sweep") {
      int k = c.i(), a = c.i();
      ContinuousCollisionObject<double> o(w[a].g, mv[k].m); o.computeAABB();
      auto& l = w[a].g->aabb_local;
      j.i("m", k).i("a", a).v3("llo", l.min_).v3("lhi", l.max_).v3("lo", o.getAABB().min_).v3("hi", o.getAABB().max_);
    } else if (c.op == "ccd") {
      int a = c.i(), b = c.i(), ka = c.i(), kb = c.i(); std::string sol = c.w(), sv = c.w(); int num = c.i(); double err = c.d(); int how = c.i();
      auto type = [](const std::string& s) { return s == "trans" ? CCDM_TRANS : s == "linear" ? CCDM_LINEAR : s == "screw" ? CCDM_SCREW : CCDM_SPLINE; };
      ContinuousCollisionRequest<double> rq(num, err, type(mv[ka].kind), sv == "i" ? GST_INDEP : GST_LIBCCD, sol == "naive" ? CCDC_NAIVE : sol == "ca" ? CCDC_CONSERVATIVE_ADVANCEMENT : CCDC_POLYNOMIAL_SOLVER);
      ContinuousCollisionResult<double> rs; double r;
      auto va = vertices(w[a]), vb = vertices(w[b]);
      Moving &x = mv[ka], &y = mv[kb];
      if (how == 0) r = continuousCollide(w[a].g.get(), x.m.get(), w[b].g.get(), y.m.get(), rq, rs);
      else if (how == 1) r = continuousCollide(w[a].g.get(), x.a, x.b, w[b].g.get(), y.a, y.b, rq, rs);
      else if (how == 2) { CollisionObject<double> oa(w[a].g, x.a), ob(w[b].g, y.a); r = continuousCollide(&oa, x.b, &ob, y.b, rq, rs); }
      else { ContinuousCollisionObject<double> oa(w[a].g, x.m), ob(w[b].g, y.m); r = collide(&oa, &ob, rq, rs); }
      j.i("a", a).i("b", b).i("ka", ka).i("kb", kb).str("sol", sol).str("sv", sv).i("num", num).d("err", err).i("how", how).d("ret", r).b("hit", rs.is_collide).d("toc", rs.time_of_contact)
       .b("intact", va == vertices(w[a]) && vb == vertices(w[b]));
      if (rs.is_collide) { pose(j, "R1", "T1", rs.contact_tf1); pose(j, "R2", "T2", rs.contact_tf2); }
    } else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    emit(j);
  }
}
int main(int argc, char** argv) { return run(argc, argv, history); }
