-------------------------------- MODULE Geo ---------------------------------
(***************************************************************************)
(* Geometry as FCL defines it, over real numbers (Real64).                 *)
(*                                                                         *)
(* A body is a record with fields                                          *)
(*   k  its kind;  p  its real parameters;  v  its points (convex,         *)
(*   triangle, mesh);  f  its faces, t its triangles (0-based indices);    *)
(*   R, t0  its pose (rows of the rotation, translation).                  *)
(*                                                                         *)
(* Closed convex bodies are described by their support function and by    *)
(* membership.  Statements about two bodies are decided by certificates:   *)
(*  - a direction in which they are apart shows they do not meet, and how  *)
(*    far apart they are at least;                                         *)
(*  - a point of each shows how far apart they are at most; a common       *)
(*    point shows that they meet.                                          *)
(***************************************************************************)
EXTENDS Real64, FiniteSets, TLC

Half(x) == x // Two
HalfOf(s) == RDiv(One, Two) ** s

\* ----- in the body's own frame; axes of revolution along z, centred
\* support: max of n.x over the body
Radial(n) == RSqrt((n[1] ** n[1]) ++ (n[2] ** n[2]))
LSup(b, n) ==
  CASE b.k = "sphere"    -> b.p[1] ** VNorm(n)
    [] b.k = "box"       -> ((RAbs(n[1]) ** Half(b.p[1])) ++ (RAbs(n[2]) ** Half(b.p[2]))) ++ (RAbs(n[3]) ** Half(b.p[3]))
    [] b.k = "ellipsoid" -> VNorm(<< n[1] ** b.p[1], n[2] ** b.p[2], n[3] ** b.p[3] >>)
    [] b.k = "capsule"   -> (RAbs(n[3]) ** Half(b.p[2])) ++ (b.p[1] ** VNorm(n))
    [] b.k = "cylinder"  -> (RAbs(n[3]) ** Half(b.p[2])) ++ (b.p[1] ** Radial(n))
    [] b.k = "cone"      -> RMax(n[3] ** Half(b.p[2]), (b.p[1] ** Radial(n)) -- (n[3] ** Half(b.p[2])))
    [] b.k \in {"convex", "triangle"} -> MaxDot(n, b.v)
\* a point that attains it
Unit(n) == LET m == VNorm(n) IN IF m \preceq Zero THEN VI(0, 0, 1) ELSE VScale(One // m, n)
Sgn(x) == IF x \prec Zero THEN R(-1) ELSE One
LSupPt(b, n) ==
  LET disk(r) == LET m == Radial(n) IN IF m \preceq Zero THEN << Zero, Zero >> ELSE << (r ** n[1]) // m, (r ** n[2]) // m >>
  IN
  CASE b.k = "sphere"    -> VScale(b.p[1], Unit(n))
    [] b.k = "box"       -> << Sgn(n[1]) ** Half(b.p[1]), Sgn(n[2]) ** Half(b.p[2]), Sgn(n[3]) ** Half(b.p[3]) >>
    [] b.k = "ellipsoid" -> LET w == << n[1] ** b.p[1], n[2] ** b.p[2], n[3] ** b.p[3] >>
                                u == Unit(w)
                            IN << u[1] ** b.p[1], u[2] ** b.p[2], u[3] ** b.p[3] >>
    [] b.k = "capsule"   -> VAdd(VScale(b.p[1], Unit(n)), << Zero, Zero, Sgn(n[3]) ** Half(b.p[2]) >>)
    [] b.k = "cylinder"  -> LET d == disk(b.p[1]) IN << d[1], d[2], Sgn(n[3]) ** Half(b.p[2]) >>
    [] b.k = "cone"      -> LET d == disk(b.p[1]) IN
                            IF (b.p[1] ** Radial(n)) -- (n[3] ** Half(b.p[2])) \preceq (n[3] ** Half(b.p[2]))
                            THEN << Zero, Zero, Half(b.p[2]) >> ELSE << d[1], d[2], RNeg(Half(b.p[2])) >>
    [] b.k \in {"convex", "triangle"} -> b.v[ArgMaxDot(n, b.v)]

\* membership with slack e >= 0 (a point within e of the body passes; a point
\* farther than a small multiple of e does not)
TriNormal(v) == VCross(VSub(v[2], v[1]), VSub(v[3], v[1]))
InTri(v, x, e) ==
  LET n == Unit(TriNormal(v))
      side(i, j) == LET d == VSub(v[j], v[i]) IN RNeg(e ** VNorm(d)) \preceq VDot(n, VCross(d, VSub(x, v[i])))
  IN /\ RAbs(VDot(n, VSub(x, v[1]))) \preceq e
     /\ side(1, 2) /\ side(2, 3) /\ side(3, 1)
FaceOut(b, f, x) ==      \* how far x is outside the plane of face f (0-based indices, counter-clockwise)
  LET a == b.v[f[1] + 1]
      n == Unit(VCross(VSub(b.v[f[2] + 1], a), VSub(b.v[f[3] + 1], a)))
  IN VDot(n, VSub(x, a))
LIn(b, x, e) ==
  CASE b.k = "sphere"    -> VNorm(x) \preceq (b.p[1] ++ e)
    [] b.k = "box"       -> \A i \in 1..3 : RAbs(x[i]) \preceq (Half(b.p[i]) ++ e)
    [] b.k = "ellipsoid" -> LET m == RMin(b.p[1], RMin(b.p[2], b.p[3]))
                                q == VNorm(<< x[1] // b.p[1], x[2] // b.p[2], x[3] // b.p[3] >>)
                            IN q \preceq (One ++ (e // m))
    [] b.k = "capsule"   -> LET z == RMax(Zero, RAbs(x[3]) -- Half(b.p[2]))
                            IN VNorm(<< x[1], x[2], z >>) \preceq (b.p[1] ++ e)
    [] b.k = "cylinder"  -> Radial(x) \preceq (b.p[1] ++ e) /\ RAbs(x[3]) \preceq (Half(b.p[2]) ++ e)
    [] b.k = "cone"      -> /\ RAbs(x[3]) \preceq (Half(b.p[2]) ++ e)
                            /\ LET s == RSqrt((b.p[1] ** b.p[1]) ++ (b.p[2] ** b.p[2]))   \* distance to the lateral line
                               IN ((Radial(x) ** b.p[2]) ++ ((x[3] -- Half(b.p[2])) ** b.p[1])) \preceq (e ** s)
    [] b.k = "convex"    -> \A i \in 1..Len(b.f) : FaceOut(b, b.f[i], x) \preceq e
    [] b.k = "triangle"  -> InTri(b.v, x, e)
    [] b.k = "halfspace" -> (VDot(<< b.p[1], b.p[2], b.p[3] >>, x) -- b.p[4]) \preceq (e ** VNorm(<< b.p[1], b.p[2], b.p[3] >>))
    [] b.k = "plane"     -> RAbs(VDot(<< b.p[1], b.p[2], b.p[3] >>, x) -- b.p[4]) \preceq (e ** VNorm(<< b.p[1], b.p[2], b.p[3] >>))

\* ----- in the world
ToWorld(b, x) == VAdd(MulMV(b.R, x), b.t0)
ToLocal(b, x) == MulMTV(b.R, VSub(x, b.t0))
Sup(b, n)     == VDot(n, b.t0) ++ LSup(b, MulMTV(b.R, n))        \* max of n.x
Inf(b, n)     == VDot(n, b.t0) -- LSup(b, VNeg(MulMTV(b.R, n)))  \* min of n.x
SupPt(b, n)   == ToWorld(b, LSupPt(b, MulMTV(b.R, n)))
In(b, x, e)   == LIn(b, ToLocal(b, x), e)
Bounded(b)    == b.k \notin {"halfspace", "plane"}
Convexes      == {"sphere", "box", "ellipsoid", "capsule", "cylinder", "cone", "convex", "triangle"}

\* a half space / plane in the world: unit normal and offset
WN(b) == MulMV(b.R, Unit(<< b.p[1], b.p[2], b.p[3] >>))
WD(b) == (b.p[4] // VNorm(<< b.p[1], b.p[2], b.p[3] >>)) ++ VDot(WN(b), b.t0)

\* length scale of a body, for tolerances
RECURSIVE SeqMaxNorm(_)
SeqMaxNorm(s) == IF s = << >> THEN Zero ELSE RMax(VNorm(s[1]), SeqMaxNorm(Tail(s)))
RECURSIVE RSeqSum(_)
RSeqSum(s) == IF s = << >> THEN Zero ELSE RAbs(s[1]) ++ RSeqSum(Tail(s))
Size(b) == IF b.k \in {"convex", "triangle", "mesh"} THEN SeqMaxNorm(b.v)
           ELSE IF Bounded(b) THEN RSeqSum(b.p) ELSE One

\* gap of two convex bodies along the unit direction n (from a to b)
GapAlong(a, b, n) == Inf(b, n) -- Sup(a, n)

(***************************************************************************)
(* How far two convex bodies are apart, decided from certificates.         *)
(***************************************************************************)
(* Knowledge about a pair: lo is a lower bound of the distance that some   *)
(* direction certifies; hit: some point lies in both, at least a margin    *)
(* deep in one of them.                                                    *)
(***************************************************************************)
HitPoint(a, b, x, m) == \/ In(a, x, RNeg(m)) /\ In(b, x, Zero)
                        \/ In(b, x, RNeg(m)) /\ In(a, x, Zero)

\* some interior point of a body
RECURSIVE VSum(_)
VSum(s) == IF s = << >> THEN VZero ELSE VAdd(s[1], VSum(Tail(s)))
LCenter(b) == IF b.k \in {"convex", "triangle"} THEN VScale(One // R(Len(b.v)), VSum(b.v))
              ELSE IF b.k = "cone" THEN << Zero, Zero, RNeg(b.p[2] // R(4)) >>
              ELSE VZero
Center(b) == ToWorld(b, LCenter(b))

\* Frank-Wolfe iteration on the difference of the bodies shrunk by the factor
\* s about their centers.  The result is a certificate, not an approximation:
\*   n, lo : the unit direction and its gap GapAlong (of the full bodies)
\*   x     : a candidate common point
RECURSIVE FW(_, _, _, _, _, _, _, _)
FW(a, b, s, wa, wb, best, nbest, k) ==
  LET v  == VSub(wb, wa)
      n  == Unit(v)
      pa == VAdd(VScale(s, SupPt(a, n)), VScale(One -- s, Center(a)))
      pb == VAdd(VScale(s, SupPt(b, VNeg(n))), VScale(One -- s, Center(b)))
      g  == GapAlong(a, b, n)
      d  == VSub(VSub(pb, pa), v)
      dd == VDot(d, d)
      t0 == IF dd \preceq Zero THEN Zero ELSE RNeg(VDot(v, d)) // dd
      t  == RMax(Zero, RMin(One, t0))
      bg == IF best \prec g THEN g ELSE best
      bn == IF best \prec g THEN n ELSE nbest
  IN IF k = 0 \/ VNorm(v) \preceq RQ(1, 100000) \/ t \preceq Zero \/ Zero \prec bg
     THEN [lo |-> bg, n |-> bn, x |-> VScale(HalfOf(One), VAdd(wa, wb))]
     ELSE FW(a, b, s, VAdd(VScale(One -- t, wa), VScale(t, pa)), VAdd(VScale(One -- t, wb), VScale(t, pb)), bg, bn, k - 1)
Minus1e9 == R(-1000000000)
Decide(a, b, m) ==
  IF ~Bounded(a) /\ ~Bounded(b) THEN [lo |-> Minus1e9, hit |-> FALSE, x |-> VZero]
  ELSE IF ~Bounded(a) \/ ~Bounded(b) THEN
    LET h == IF Bounded(a) THEN b ELSE a
        c == IF Bounded(a) THEN a ELSE b
        lo == Inf(c, WN(h)) -- WD(h)
        hi == Sup(c, WN(h)) -- WD(h)
    IN IF h.k = "halfspace" THEN [lo |-> lo, hit |-> lo \prec RNeg(m), x |-> c.t0]
       ELSE [lo |-> RMax(lo, RNeg(hi)), hit |-> lo \prec RNeg(m) /\ m \prec hi, x |-> c.t0]
  ELSE LET r == FW(a, b, RQ(97, 100), Center(a), Center(b), Minus1e9, VI(0, 0, 1), 40)
       IN [lo |-> r.lo, hit |-> r.lo \prec Zero /\ HitPoint(a, b, r.x, m), x |-> r.x]

\* the certificate (n, pa, pb) shows that the distance is exactly g > 0:
DistanceCert(a, b, n, pa, pb, g, e) ==
  /\ RNear(VNorm(n), One, RQ(1, 1000000))
  /\ In(a, pa, e) /\ In(b, pb, e)
  /\ VNear(VSub(pb, pa), VScale(g, n), e)
  /\ Sup(a, n) \preceq (VDot(n, pa) ++ e)
  /\ (VDot(n, pb) -- e) \preceq Inf(b, n)
=============================================================================
