------------------------------ MODULE TraceGeom ------------------------------
(***************************************************************************)
(* Conformance of the geometry itself: bounding volumes of shapes, meshes  *)
(* and placed objects, measures, extreme points, sides of half spaces and  *)
(* meshes generated from shapes (harness geom).                            *)
(***************************************************************************)
EXTENDS Mass, BV, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w
tvars == << h, i, w >>
IdM == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1) >>
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >>
Body(e) == [k |-> e.k, p |-> e.p, v |-> e.v, f |-> e.f, t |-> e.t, R |-> IdM, t0 |-> VZero]
Scale(b) == (RQ(1, 1000) ++ Size(b)) ++ VNorm(b.t0)
Eps(b) == RQ(1, 10000000) ** Scale(b)

\* ------------------------------------------------------- points of the body
Dirs26 == LET S == { << x, y, z >> : x, y, z \in {-1, 0, 1} } \ { << 0, 0, 0 >> } IN { VI(d[1], d[2], d[3]) : d \in S }
More == { VI(3, 1, 0), VI(-1, 4, 2), VI(2, -3, 5), VI(-5, -2, 1), VI(1, 7, -3), VI(-2, 1, -6), VI(4, -5, -1), VI(-3, 2, 8) }
Cols(A) == { << A[1][c], A[2][c], A[3][c] >> : c \in 1..3 } \cup { VNeg(<< A[1][c], A[2][c], A[3][c] >>) : c \in 1..3 }
KD(n) == { KDirs(n)[c] : c \in 1..(n \div 2) } \cup { VNeg(KDirs(n)[c]) : c \in 1..(n \div 2) }
DirsOf(bv) == Dirs26 \cup More
              \cup (IF bv.k = "KDOP" THEN KD(Len(bv.d)) ELSE {})
              \cup (IF bv.k \in {"OBB", "RSS", "kIOS", "OBBRSS"} THEN Cols(bv.A) ELSE {})
              \cup (IF bv.k = "OBBRSS" THEN Cols(bv.A2) ELSE {})
\* some points of the unbounded ones, near and far
Across(n) == LET a == IF RAbs(n[1]) \preceq RQ(1, 2) THEN VI(1, 0, 0) ELSE VI(0, 1, 0) IN Unit(VCross(n, a))
Reach(b) == LET n == WN(b)
                u == Across(n)
                u2 == VCross(n, u)
                o == VScale(WD(b), n)
                depths == IF b.k = "plane" THEN {0} ELSE {0, 1, 1000}
            IN { VAdd(o, VAdd(VScale(R(x), u), VSub(VScale(R(y), u2), VScale(R(z), n)))) : x, y \in {-1000, -1, 0, 1, 1000}, z \in depths }
PointsFor(b, D) ==
  IF ~Bounded(b) THEN Reach(b)
  ELSE IF b.k \in {"convex", "triangle", "mesh"} THEN { ToWorld(b, b.v[c]) : c \in 1..Len(b.v) }
  ELSE { SupPt(b, d) : d \in D }
RelEps(b, x) == RQ(1, 10000000) ** (Scale(b) ++ VNorm(x))
InBox(lo, hi, x, e) == \A c \in 1..3 : (lo[c] -- e) \preceq x[c] /\ x[c] \preceq (hi[c] ++ e)

BvWhy(e, b) ==
  LET P == PointsFor(b, DirsOf(e.bv))
  IN IF ~WellFormed(e.bv) THEN "computed volume is none: " \o e.bv.k
     ELSE IF \E x \in P : ~InBV(e.bv, x, RelEps(b, x)) THEN "computed volume loses part of the shape: " \o e.bv.k
     ELSE IF e.how # 0 /\ Bounded(b) /\ \E x \in P : LET y == MulMTV(e.BR, VSub(VAdd(MulMV(e.XR, x), e.Xt), e.Bt))
                                                         q == RQ(1, 1000000) ** ((Scale(b) ++ VNorm(e.Xt)) ++ VNorm(e.Bt))
                                                     IN \E c \in 1..3 : (Half(e.side[c]) ++ q) \prec RAbs(y[c]) THEN "box constructed from the volume loses part of it: " \o e.bv.k
     ELSE ""
Local(b) == [b EXCEPT !.R = IdM, !.t0 = VZero]
LocWhy(e, b0) ==
  LET b == Local(b0)
      P == PointsFor(b, Dirs26 \cup More)
  IN IF \E x \in P : ~InBox(e.lo, e.hi, x, RelEps(b, x)) THEN "local box loses part of the body"
     ELSE IF Bounded(b) /\ \E x \in P : (e.r ++ Eps(b)) \prec VDist(x, e.c) THEN "radius does not reach the whole body"
     ELSE IF Bounded(b) /\ \E c \in 1..3 : LET d == [q \in 1..3 |-> IF q = c THEN One ELSE Zero]
                                               s == IF b.k \in {"mesh"} THEN MaxDot(d, b.v) ELSE LSup(b, d)
                                               t == IF b.k \in {"mesh"} THEN MinDot(d, b.v) ELSE RNeg(LSup(b, VNeg(d)))
                                           IN ~RNear(e.hi[c], s, Eps(b)) \/ ~RNear(e.lo[c], t, Eps(b)) THEN "local box is not the smallest"
     ELSE ""
WorldWhy(e, b) ==
  LET P == PointsFor(b, Dirs26 \cup More)
  IN IF ~(VNear(e.Gt, b.t0, Zero) /\ \A c \in 1..3 : VNear(e.GR[c], b.R[c], RQ(1, 1000000000))) THEN "object is not where it was put"
     ELSE IF \E x \in P : ~InBox(e.lo, e.hi, x, RelEps(b, x)) THEN "box of the placed object loses part of it" ELSE ""
\* ------------------------------------------------------- measures
MNear(A, B, t) == \A r, c \in 1..3 : RNear(A[r][c], B[r][c], t)
MScaleM(s, A) == [r \in 1..3 |-> VScale(s, A[r])]
MassWhy(e, b) ==
  LET M == Measure(b)
      u == IF b.k = "convex" THEN One // M.v ELSE One      \* documented: a convex has unit mass
      z == RQ(1, 100000000) ** (Sq(Size(b)) ** (u ** (RAbs(M.v) ++ (RQ(1, 1000) ** (Size(b) ** Sq(Size(b)))))))
  IN IF ~RNear(e.vol, M.v, RQ(1, 100000000) ** (Size(b) ** Sq(Size(b)))) THEN "volume"
     ELSE IF ~VNear(e.com, COM(M), RQ(1, 1000000) ** Size(b)) THEN "center of mass"
     ELSE IF ~MNear(e.I, MScaleM(u, Inertia(M.s)), z) THEN "inertia about the origin"
     ELSE IF ~MNear(e.Ic, MScaleM(u, Inertia(Central(M))), R(10) ** z) THEN "inertia about the center of mass" ELSE ""
\* ------------------------------------------------------- further services
HullWhy(e, b) ==
  IF e.v = << >> THEN (IF Bounded(b) THEN "no bounding points" ELSE "")
  ELSE IF \E d \in Dirs26 \cup More : (MaxDot(d, e.v) ++ (Eps(b) ** VNorm(d))) \prec (IF b.k = "mesh" THEN Zero ELSE Sup(b, d)) THEN "bounding points do not surround the shape" ELSE ""
ExtremeWhy(e, b) ==
  IF ~RNear(VDot(e.n, e.x), MaxDot(e.n, b.v), (RQ(1, 1000000000) ** Size(b)) ** VNorm(e.n)) THEN "vertex is not extreme"
  ELSE IF \A c \in 1..Len(b.v) : b.v[c] # e.x THEN "extreme vertex is no vertex"
  ELSE IF ~LIn(b, e.in, Zero) THEN "interior point is outside" ELSE ""
SideWhy(e, b) ==
  LET d == VDot(WN(b), e.x) -- WD(b)
      q == RQ(1, 100000000) ** ((One ++ VNorm(e.x)) ++ (VNorm(b.t0) ++ RAbs(WD(b))))
  IN IF ~RNear(e.sd, d, q) THEN "signed distance of a point" ELSE IF ~RNear(e.d, RAbs(d), q) THEN "distance of a point" ELSE ""
\* ------------------------------------------------------- generated meshes
\* every directed edge once, and its reverse once
Edges(t) == { << c, s >> : c \in 1..Len(t), s \in 1..3 }
Dir(t, x) == << t[x[1]][x[2]], t[x[1]][(x[2] % 3) + 1] >>
Closed(t) == LET E == Edges(t)
                 D == { Dir(t, x) : x \in E }
             IN Cardinality(D) = Cardinality(E) /\ \A d \in D : << d[2], d[1] >> \in D
Expected(e, b) ==    \* triangles asked for
  IF b.k = "box" THEN 12
  ELSE IF b.k \in {"sphere", "ellipsoid"} THEN 2 * e.n1 * e.n2
  ELSE IF b.k = "cylinder" THEN 2 * e.n1 * (e.n2 + 1)
  ELSE 2 * e.n1 * e.n2
OnSurface(b, x, q) == In(b, x, q) /\ ~In(b, x, RNeg(q))
\* an inscribed mesh of at least six segments and two rings holds this share of the volume
Least(b) == IF b.k = "box" THEN 99 ELSE 30
\* number of triangles of the forms that scale with the shape, documented for the sphere: radius squared times n
Wanted(e, b) == (Sq(b.p[1])) ** R(e.n1)
TessWhy(e, b) ==
  LET q == RQ(1, 1000000) ** Scale(b)
      M == PolyMeasure([k |-> "mesh", v |-> e.v, t |-> e.t])
      V == RoundMeasure(b).v
  IN IF e.rc # 0 \/ e.state # 1 THEN "generation failed"
     ELSE IF e.form = 0 /\ Len(e.t) # Expected(e, b) THEN "number of triangles"
     ELSE IF e.form = 1 /\ b.k = "sphere" /\ ~(R(Len(e.t)) \preceq ((R(2) ** Wanted(e, b)) ++ R(40)) /\ (Wanted(e, b) // R(2)) \preceq R(Len(e.t))) THEN "number of triangles"
     ELSE IF \E c \in 1..Len(e.v) : ~OnSurface(b, e.v[c], q) THEN "vertex is not on the surface"
     ELSE IF ~Closed(e.t) THEN "mesh is not closed"
     ELSE IF ~(M.v \preceq ((One ++ RQ(1, 1000000)) ** V)) \/ ~((RQ(Least(b), 100) ** V) \preceq M.v) THEN "volume of the mesh"
     ELSE ""
Why(e) ==
  CASE e.op \in {"Crash", "Hang", "Exception"} -> e.op
    [] e.op = "bv" -> BvWhy(e, w[e.s])
    [] e.op = "loc" -> LocWhy(e, w[e.s])
    [] e.op = "world" -> WorldWhy(e, w[e.s])
    [] e.op = "mass" -> MassWhy(e, w[e.s])
    [] e.op = "hull" -> HullWhy(e, w[e.s])
    [] e.op = "extreme" -> ExtremeWhy(e, w[e.s])
    [] e.op = "side" -> SideWhy(e, w[e.s])
    [] e.op = "tess" -> TessWhy(e, w[e.s])
    [] OTHER -> ""
Tag(e) == IF e.op \in {"bv", "loc", "world", "mass", "hull", "extreme", "side", "tess"} THEN " " \o w[e.s].k ELSE ""
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         y == Why(e)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y \o Tag(e) >>) ELSE TRUE
        /\ w' = CASE e.op \in {"shape", "mesh"} -> [s \in DOMAIN w \cup {e.s} |-> IF s = e.s THEN Body(e) ELSE w[s]]
                  [] e.op = "pose" -> [w EXCEPT ![e.s].R = e.R, ![e.s].t0 = e.t]
                  [] OTHER -> w
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
