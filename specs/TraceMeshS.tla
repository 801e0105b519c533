----------------------------- MODULE TraceMeshS -----------------------------
(***************************************************************************)
(* Conformance of collision and distance queries between a triangle mesh   *)
(* (slot 0) and a shape (slot 1), in either order of arguments.  The mesh  *)
(* is the union of its triangles: what is true is computed triangle by     *)
(* triangle with the certificates of module Geo.                           *)
(***************************************************************************)
EXTENDS Geo, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w, know, acc
tvars == << h, i, w, know, acc >>

\* know.t[k]: what is known about triangle k and the shape
\*  lo, hi: bounds of their distance;  hit: they meet, and would after any small change
NoKnow == [done |-> FALSE, t |-> << >>, lo |-> Zero, hi |-> Zero, hit |-> FALSE]
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >> /\ know = NoKnow /\ acc = [n |-> 0, bad |-> 0]

IdM == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1) >>
Placed(m, A, t) == [k \in 1..Len(m.t) |-> [c \in 1..3 |-> VAdd(MulMV(A, m.v[m.t[k][c] + 1]), t)]]
AsBody(v) == [k |-> "triangle", p |-> << >>, v |-> v, f |-> << >>, R |-> IdM, t0 |-> VZero]
Mesh(e) == LET m == [v |-> e.v, t |-> e.t] IN [m |-> m, bv |-> e.bv, wt |-> Placed(m, IdM, VZero)]
Body(e) == [k |-> e.k, p |-> e.p, v |-> e.v, f |-> e.f, t |-> e.t, R |-> IdM, t0 |-> VZero]

RECURSIVE SeqFar(_)
SeqFar(s) == IF s = << >> THEN Zero ELSE RMax(VNorm(s[1]), SeqFar(Tail(s)))
MeshSize(m) == SeqFar(m.v)
\* length scale: of the two bodies, and (for rounding only) how far away they are
Scale == (RQ(1, 100) ++ RMax(MeshSize(w[0].m), Size(w[1])))
Exact == w[1].k \in {"sphere", "halfspace", "plane"}
Tol(e) == (IF Exact THEN RQ(1, 100000) ELSE IF e.sv = "i" THEN RQ(1, 10000) ELSE RQ(3, 1000)) ** Scale

\* descent on the distance of two convex bodies: the points found bound it from above, the directions
\* from below.  A certificate again, however far it gets.
RECURSIVE Near2(_, _, _, _, _, _, _)
Near2(a, b, pa, pb, lo, eps, k) ==
  LET v  == VSub(pb, pa)
      m  == VNorm(v)
      n  == Unit(v)
      sa == SupPt(a, n)
      sb == SupPt(b, VNeg(n))
      nlo == RMax(lo, VDot(n, VSub(sb, sa)))
      d  == VSub(VSub(sb, sa), v)
      dd == VDot(d, d)
      t  == IF dd \preceq Zero THEN Zero ELSE RMax(Zero, RMin(One, RNeg(VDot(v, d)) // dd))
  IN IF k = 0 \/ m \preceq eps \/ (m -- nlo) \preceq eps \/ t \preceq Zero THEN [lo |-> nlo, hi |-> m]
     ELSE Near2(a, b, VAdd(VScale(One -- t, pa), VScale(t, sa)), VAdd(VScale(One -- t, pb), VScale(t, sb)), nlo, eps, k - 1)

\* one triangle and the shape
Margin == RQ(1, 1000) ** Scale
HitTri(s, v, x) == In(s, x, RNeg(Margin)) /\ InTri(v, x, Margin // R(4))
OneTri(v, s) ==
  IF ~Bounded(s) THEN
    LET a == AsBody(v)
        l == Inf(a, WN(s)) -- WD(s)
        u == Sup(a, WN(s)) -- WD(s)
    IN IF s.k = "halfspace" THEN [lo |-> RMax(l, Zero), hi |-> RMax(l, Zero), hit |-> l \prec RNeg(Margin)]
       ELSE [lo |-> RMax(Zero, RMax(l, RNeg(u))), hi |-> RMax(Zero, RMax(l, RNeg(u))), hit |-> l \prec RNeg(Margin) /\ Margin \prec u]
  ELSE LET a == AsBody(v)
           r == FW(a, s, RQ(97, 100), Center(a), Center(s), Minus1e9, VI(0, 0, 1), 40)
           f == Near2(a, s, Center(a), Center(s), r.lo, RQ(1, 10000) ** Scale, 40)
           g == RMax(Zero, f.lo)
       IN [lo |-> g, hi |-> RMax(g, f.hi), hit |-> ~(Zero \prec f.lo) /\ HitTri(s, v, r.x)]
RECURSIVE MinLo(_)
MinLo(s) == IF Len(s) = 1 THEN s[1].lo ELSE RMin(s[1].lo, MinLo(Tail(s)))
RECURSIVE MinHi(_)
MinHi(s) == IF Len(s) = 1 THEN s[1].hi ELSE RMin(s[1].hi, MinHi(Tail(s)))
Know == IF know.done THEN know
        ELSE LET t == [k \in 1..Len(w[0].wt) |-> OneTri(w[0].wt[k], w[1])]
             IN [done |-> TRUE, t |-> t, lo |-> MinLo(t), hi |-> MinHi(t), hit |-> \E k \in 1..Len(t) : t[k].hit]

Pair(e) == w[0].bv \o "-" \o w[1].k \o "/" \o e.sv
\* which argument a field of the answer names (1 or 2) -> the slot
SlotOf(e, x) == IF x = 1 THEN e.a ELSE IF x = 2 THEN e.b ELSE -1
\* the answer names both bodies; the mesh comes first, with its triangle
NamesOK(e, c) == SlotOf(e, c.o1) = 0 /\ SlotOf(e, c.o2) = 1
\* ------------------------------------------------------------------ collide
SupX(b, n) == IF Bounded(b) THEN Sup(b, n) ELSE WD(b) ** VDot(n, WN(b))
InfX(b, n) == IF Bounded(b) THEN Inf(b, n) ELSE WD(b) ** VDot(n, WN(b))
Along(n, m) == RNear(VDot(n, m), One, RQ(1, 10000))
DirOK(b, n) == Bounded(b) \/ Along(n, VNeg(WN(b))) \/ (b.k = "plane" /\ Along(n, WN(b)))
\* contact of triangle c.b1 and the shape; the normal points from the mesh to the shape
ContactWhy(e, c) ==
  LET v == w[0].wt[c.b1 + 1]
      a == AsBody(v)
      b == w[1]
      tol == Tol(e)
      ov == Sup(a, c.n) -- InfX(b, c.n)
      m == c.d ++ tol
  IN IF ~(VFin(c.n) /\ VFin(c.p) /\ RFin(c.d)) THEN "contact is not finite "
     ELSE IF VNorm(c.n) = Zero THEN (IF c.d \preceq tol THEN "" ELSE "contact normal is zero ")
     ELSE IF ~RNear(VNorm(c.n), One, RQ(1, 10000)) THEN "contact normal is not a unit vector "
     ELSE IF c.d \prec RNeg(tol) THEN "negative penetration depth "
     ELSE IF ~DirOK(b, c.n) THEN "contact normal is not the normal of the surface "
     ELSE IF (ov ++ tol) \prec c.d THEN "depth exceeds the overlap along the normal "
     ELSE IF Exact /\ (c.d ++ tol) \prec ov THEN "moving apart by the depth does not separate "
     ELSE IF ~(LET x == m ++ (IF ~Exact /\ e.sv = "i" THEN Scale ELSE Zero) IN InTri(v, c.p, x) /\ In(b, c.p, x)) THEN "contact position away from the bodies "
     ELSE ""
RECURSIVE FirstWhy(_)
FirstWhy(s) == IF s = << >> THEN "" ELSE IF s[1] # "" THEN s[1] ELSE FirstWhy(Tail(s))
CollideWhy(e, K) ==
  LET cs == e.cs
      N == Len(w[0].wt)
      Named == { cs[k].b1 + 1 : k \in 1..Len(cs) }
  IN IF e.ret # Len(cs) \/ e.res # (Len(cs) > 0) THEN "count, result and contacts disagree "
     ELSE IF Len(cs) > e.max THEN "more contacts than asked for "
     ELSE IF \E k \in 1..Len(cs) : ~NamesOK(e, cs[k]) THEN "contact names other objects "
     ELSE IF ~(Named \subseteq 1..N) THEN "contact names a triangle that does not exist "
     ELSE IF Cardinality(Named) # Len(cs) THEN "triangle reported repeatedly "
     ELSE IF \E k \in Named : Tol(e) \prec K.t[k].lo THEN "contact of a triangle that is apart "
     ELSE IF Len(cs) < e.max /\ (\E k \in 1..N : K.t[k].hit /\ k \notin Named) THEN "triangle in collision not reported "
     ELSE IF e.con = 1 THEN FirstWhy([k \in 1..Len(cs) |-> ContactWhy(e, cs[k])])
     ELSE ""
\* ------------------------------------------------------------------ distance
Loose(e) == (IF ~Exact THEN R(10) ELSE One) ** Tol(e)
DistanceWhy(e, K) ==
  LET tol == Tol(e)
      big == Loose(e)
      N == Len(w[0].wt)
      k == e.b1 + 1
  IN IF ~RFin(e.ret) THEN "distance is not finite "
     ELSE IF e.ret # e.min THEN "returned distance differs from the result "
     ELSE IF K.hit /\ tol \prec e.ret THEN "positive distance of intersecting bodies "
     ELSE IF (K.hi ++ big) \prec e.ret THEN "distance is not the minimum "
     ELSE IF tol \prec K.lo /\ e.ret \prec (K.lo -- tol) THEN "distance below the minimum "
     ELSE IF ~NamesOK(e, e) THEN "result names other objects "
     ELSE IF k \notin 1..N THEN "result names a triangle that does not exist "
     ELSE IF (RMax(e.ret, Zero) ++ big) \prec K.t[k].lo THEN "the named triangle is not nearest "
     ELSE IF e.np = 1 /\ tol \prec e.ret THEN
          IF ~(VFin(e.p1) /\ VFin(e.p2)) THEN "nearest points are not finite "
          ELSE IF ~InTri(w[0].wt[k], e.p1, tol) THEN "nearest point 1 is not on its triangle "
          ELSE IF ~In(w[1], e.p2, tol) THEN "nearest point 2 is not on the shape "
          ELSE IF ~RNear(VDist(e.p1, e.p2), e.ret, big) THEN "nearest points are not that far apart "
          ELSE ""
     ELSE ""
\* within the hard limit, but not as exact as asked for: counted
Inaccurate(e, K) == /\ Tol(e) \prec e.ret
                    /\ \/ (K.hi ++ Tol(e)) \prec e.ret
                       \/ e.np = 1 /\ ~RNear(VDist(e.p1, e.p2), e.ret, Tol(e))
Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
Why(e, K) == CASE Fatal(e) -> e.op
               [] e.op = "refused" -> "query refused "
               [] e.op = "collide" -> CollideWhy(e, K)
               [] e.op = "distance" -> DistanceWhy(e, K)
               [] e.op = "tally" -> IF acc.bad * 5 > acc.n + 10 THEN "too many inaccurate answers " ELSE ""
               [] OTHER -> ""
Tag(e) == IF e.op \in {"collide", "distance"} THEN Pair(e) ELSE ""
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         K == IF e.op \in {"collide", "distance"} THEN Know ELSE know
         y == Why(e, K)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y \o Tag(e) >>) ELSE TRUE
        /\ CASE e.op = "mesh" -> /\ w' = [s \in DOMAIN w \cup {0} |-> IF s = 0 THEN Mesh(e) ELSE w[s]]
                                 /\ know' = NoKnow
             [] e.op = "shape" -> /\ w' = [s \in DOMAIN w \cup {1} |-> IF s = 1 THEN Body(e) ELSE w[s]]
                                  /\ know' = NoKnow
             [] e.op = "pose" -> /\ w' = IF e.s = 0 THEN [w EXCEPT ![0].wt = Placed(w[0].m, e.R, e.t)]
                                         ELSE [w EXCEPT ![1].R = e.R, ![1].t0 = e.t]
                                 /\ know' = NoKnow
             [] OTHER -> know' = K /\ UNCHANGED w
        /\ acc' = IF e.op = "tally" THEN [n |-> 0, bad |-> 0]
                  ELSE IF e.op = "distance" /\ y = "" THEN [n |-> acc.n + 1, bad |-> acc.bad + (IF Inaccurate(e, K) THEN 1 ELSE 0)]
                  ELSE acc
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
