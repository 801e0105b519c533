------------------------------ MODULE TraceCcd ------------------------------
(***************************************************************************)
(* Conformance of motions and continuous collision.  A motion is a family  *)
(* of poses over [0, 1]; the specification computes the pose at any time   *)
(* itself.  What a motion reports (axis, angle, velocity) only counts      *)
(* after it was shown to lead from the first pose to the second.           *)
(***************************************************************************)
EXTENDS Things, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w, mo
tvars == << h, i, w, mo >>
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >> /\ mo = << >>

\* ------------------------------------------------------------------ motions
RotM(u, a) ==
  LET c == RCos(a)
      s == RSin(a)
      d == One -- c
  IN << << c ++ (d ** u[1] ** u[1]), (d ** u[1] ** u[2]) -- (s ** u[3]), (d ** u[1] ** u[3]) ++ (s ** u[2]) >>,
        << (d ** u[2] ** u[1]) ++ (s ** u[3]), c ++ (d ** u[2] ** u[2]), (d ** u[2] ** u[3]) -- (s ** u[1]) >>,
        << (d ** u[3] ** u[1]) -- (s ** u[2]), (d ** u[3] ** u[2]) ++ (s ** u[1]), c ++ (d ** u[3] ** u[3]) >> >>
MulMM(A, B) == [r \in 1..3 |-> MulMTV(B, A[r])]
MNear(A, B, e) == \A r \in 1..3 : VNear(A[r], B[r], e)
RefAt1(m) == VAdd(MulMV(m.R1, m.O), m.T1)
RefAt2(m) == VAdd(MulMV(m.R2, m.O), m.T2)
B3(t) == << ((((One -- (R(3) ** t)) ++ (R(3) ** t ** t)) -- (t ** t ** t)) // R(6)), (((R(4) -- (R(6) ** t ** t)) ++ (R(3) ** t ** t ** t)) // R(6)),
            ((((One ++ (R(3) ** t)) ++ (R(3) ** t ** t)) -- (R(3) ** t ** t ** t)) // R(6)), ((t ** t ** t) // R(6)) >>
Blend(c, o, b) == VAdd(VAdd(VScale(b[1], c[o + 1]), VScale(b[2], c[o + 2])), VAdd(VScale(b[3], c[o + 3]), VScale(b[4], c[o + 4])))
\* the pose at time t of [0, 1]
PoseAt(m, t) ==
  CASE m.kind = "trans" -> [R |-> m.R1, t |-> VAdd(m.T1, VScale(t, VSub(m.T2, m.T1)))]
    [] m.kind = "linear" -> LET Q == MulMM(RotM(m.axis, t ** m.angle), m.R1)
                            IN [R |-> Q, t |-> VSub(VAdd(RefAt1(m), VScale(t, VSub(RefAt2(m), RefAt1(m)))), MulMV(Q, m.O))]
    [] m.kind = "screw" -> LET D == RotM(m.axis, t ** m.angle)
                           IN [R |-> MulMM(D, m.R1), t |-> VAdd(VAdd(m.org, VScale(t ** m.lin, m.axis)), MulMV(D, VSub(m.T1, m.org)))]
    [] m.kind = "spline" -> LET b == B3(t)
                                r == Blend(m.ctl, 4, b)
                            IN [R |-> RotM(Unit(r), VNorm(r)), t |-> Blend(m.ctl, 0, b)]
\* how large the numbers of a motion are
Far(m) == IF m.kind = "spline" THEN One ++ SeqMaxNorm(m.ctl)
          ELSE One ++ RMax(VNorm(m.T1), VNorm(m.T2)) ++ (IF m.kind = "linear" THEN VNorm(m.O) ELSE Zero)
Tiny == RQ(1, 1000000)
Path(m) == IF m.kind = "spline" THEN R(4) ** Far(m) ELSE VDist(m.T1, m.T2) ++ (IF m.kind = "trans" THEN Zero ELSE m.angle)
Turn(m) == (m.angle \preceq Tiny \/ RNear(VNorm(m.axis), One, Tiny)) /\ Zero \preceq m.angle /\ m.angle \preceq RQ(3141594, 1000000) /\ MNear(MulMM(RotM(m.axis, m.angle), m.R1), m.R2, Tiny)
EndOf(m) == LET p == PoseAt(m, One) IN MNear(p.R, m.R2, Tiny) /\ VNear(p.t, m.T2, Tiny ** Far(m))
SamePose(e, p, m) == MNear(e.R, p.R, Tiny) /\ VNear(e.t, p.t, Tiny ** Far(m))
MotionWhy(m) ==
  IF m.kind = "trans" THEN (IF ~VNear(m.lin, VSub(m.T2, m.T1), Tiny ** Far(m)) THEN "velocity does not lead to the second pose " ELSE IF ~SamePose(m, PoseAt(m, Zero), m) THEN "does not begin at the first pose " ELSE "")
  ELSE IF m.kind = "spline" THEN (IF ~SamePose(m, PoseAt(m, Zero), m) THEN "does not begin at the first pose " ELSE "")
  ELSE IF ~Turn(m) THEN "rotation does not lead to the second orientation "
  ELSE IF m.kind = "linear" /\ m.ref # m.O THEN "another reference point "
  ELSE IF m.kind = "linear" /\ ~VNear(m.lin, VSub(RefAt2(m), RefAt1(m)), Tiny ** Far(m)) THEN "velocity does not lead to the second pose "
  ELSE IF ~EndOf(m) THEN "does not lead to the second pose "
  ELSE IF ~SamePose(m, PoseAt(m, Zero), m) THEN "does not begin at the first pose "
  ELSE ""
AtWhy(e) ==
  LET m == mo[e.m]
  IN IF ~e.ok THEN "refused "
     ELSE IF ~SamePose(e, PoseAt(m, RMin(e.tm, One)), m) THEN "wrong pose "
     ELSE IF ~e.agree THEN "the forms of the current pose disagree "
     ELSE ""
Apply(p, x) == VAdd(MulMV(p.R, x), p.t)
Units == << VI(1, 0, 0), VI(-1, 0, 0), VI(0, 1, 0), VI(0, -1, 0), VI(0, 0, 1), VI(0, 0, -1) >>
\* points (of the moving frame) of what a bound is about
Spread(e) == { e.pts[q] : q \in 1..Len(e.pts) } \cup (IF e.rad \preceq Zero THEN {} ELSE { VAdd(e.pts[q], VScale(e.rad, Units[u])) : q \in 1..Len(e.pts), u \in 1..6 })
RECURSIVE SetMaxNorm(_)
SetMaxNorm(S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN RMax(VNorm(x), SetMaxNorm(S \ {x}))
\* no point moves farther along n, from now on, than the bound allows for the time
BoundWhy(e) ==
  LET m == mo[e.m]
      p0 == PoseAt(m, e.tm)
      P == Spread(e)
      eps == Tiny ** (Far(m) ++ SetMaxNorm(P))
      Broken(k) == LET dt == (One -- e.tm) ** RQ(k, 8)
                       p == PoseAt(m, e.tm ++ dt)
                       lim == (IF m.kind = "spline" THEN e.mu ELSE e.mu ** dt) ++ eps
                   IN \E x \in P : lim \prec VDot(e.n, VSub(Apply(p, x), Apply(p0, x)))
  IN IF ~RFin(e.mu) THEN "no number " ELSE IF \E k \in 1..8 : Broken(k) THEN "a point moves farther than the bound of its " \o e.what \o " " ELSE ""
\* the box contains the object's box all the time
SweepWhy(e) ==
  LET m == mo[e.m]
      C == { << IF b[1] = 0 THEN e.llo[1] ELSE e.lhi[1], IF b[2] = 0 THEN e.llo[2] ELSE e.lhi[2], IF b[3] = 0 THEN e.llo[3] ELSE e.lhi[3] >> : b \in {0, 1} \X {0, 1} \X {0, 1} }
      eps == Tiny ** (Far(m) ++ SetMaxNorm(C))
      Out(k) == LET p == PoseAt(m, RQ(k, 16)) IN \E x \in C : LET y == Apply(p, x) IN \E a \in 1..3 : ~((e.lo[a] -- eps) \preceq y[a] /\ y[a] \preceq (e.hi[a] ++ eps))
  IN IF \E k \in 0..16 : Out(k) THEN "the object leaves the box around its motion " ELSE ""

\* ------------------------------------------------------------------ continuous collision
Unb(x) == x.k = "shape" /\ ~Bounded(x.b)
Reach2(x) == IF x.k = "shape" THEN (IF Unb(x) THEN Zero ELSE RMax(Size(x.b), Reach(Part(x, 1)))) ELSE IF x.k = "mesh" THEN SeqMaxNorm(x.v) ELSE One
Posed(x, p) == [x EXCEPT !.R = p.R, !.t0 = p.t]
FactsAt(e, t) == LET x == Posed(w[e.a], PoseAt(mo[e.ka], t))
                     y == Posed(w[e.b], PoseAt(mo[e.kb], t))
                 IN IF Unb(x) THEN Facts(y, x) ELSE Facts(x, y)
Ceil(x) == LET n == RFloor(x) IN IF x \preceq R(n) THEN n ELSE n + 1
Count(e) == LET c == Ceil(One // e.err) IN IF e.num < c THEN e.num ELSE c
Times(e) == IF e.sol = "naive" THEN LET n == Count(e) IN IF n = 1 THEN {Zero} ELSE { RQ(q, n - 1) : q \in 0..(n - 1) } ELSE { RQ(q, 16) : q \in 0..16 }
CcdWhy(e) ==
  LET m1 == mo[e.ka]
      m2 == mo[e.kb]
      p1 == PoseAt(m1, e.toc)
      p2 == PoseAt(m2, e.toc)
      size == RMax(RQ(1, 100), RMax(Reach2(w[e.a]), Reach2(w[e.b])))
      tol == RQ(3, 1000) ** (size ++ (IF e.sol = "naive" THEN Zero ELSE Path(m1) ++ Path(m2)))
      before == IF e.sol = "naive" THEN Tiny ELSE RQ(1, 10000)
  IN IF e.ret \prec Zero /\ ~e.hit THEN (IF e.sol = "naive" THEN "refused " ELSE "unsupported ")
     ELSE IF ~e.intact THEN "the query changed a mesh "
     ELSE IF ~(Zero \preceq e.toc /\ e.toc \preceq One) THEN "time of contact is not between 0 and 1 "
     ELSE IF e.ret # e.toc THEN "returned and reported times differ "
     ELSE IF ~e.hit /\ e.toc # One THEN "a time of contact without contact "
     ELSE IF e.hit /\ ~(MNear(e.R1, p1.R, Tiny) /\ MNear(e.R2, p2.R, Tiny) /\ VNear(e.T1, p1.t, Tiny ** Far(m1)) /\ VNear(e.T2, p2.t, Tiny ** Far(m2))) THEN "poses at contact are not those of the motions "
     ELSE IF e.hit /\ tol \prec FactsAt(e, e.toc).lo THEN "apart at the time of contact "
     \* features that move into each other are what the polynomial solver sees: nothing when the meshes start in contact
     ELSE IF e.sol = "poly" /\ FactsAt(e, Zero).hit THEN ""
     ELSE IF \E t \in Times(e) : (~e.hit \/ t \prec (e.toc -- before)) /\ FactsAt(e, t).hit THEN (IF e.hit THEN "an earlier contact was missed " ELSE "a contact was missed ")
     ELSE ""
Name(e) == IF e.op = "ccd" THEN e.sol \o "/" \o e.sv \o " " \o w[e.a].name \o "-" \o w[e.b].name \o " " \o mo[e.ka].kind \o "-" \o mo[e.kb].kind ELSE IF e.op \in {"at", "bound", "sweep"} THEN mo[e.m].kind ELSE IF e.op = "motion" THEN e.kind ELSE ""
Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
Why(e) == CASE Fatal(e) -> e.op
            [] e.op = "motion" -> MotionWhy(e)
            [] e.op = "at" -> AtWhy(e)
            [] e.op = "bound" -> BoundWhy(e)
            [] e.op = "sweep" -> SweepWhy(e)
            [] e.op = "ccd" -> CcdWhy(e)
            [] OTHER -> ""
Put(f, s, x) == [q \in DOMAIN f \cup {s} |-> IF q = s THEN x ELSE f[q]]
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         y == Why(e)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y \o Name(e) >>) ELSE TRUE
        /\ w' = IF e.op \in {"octree", "mesh", "shape"} THEN Put(w, e.s, Thing(e)) ELSE w
        /\ mo' = IF e.op = "motion" THEN Put(mo, e.m, e) ELSE mo
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
