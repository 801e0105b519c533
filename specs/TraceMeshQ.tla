----------------------------- MODULE TraceMeshQ -----------------------------
(***************************************************************************)
(* Conformance of collision and distance queries between two triangle      *)
(* meshes (slots 0 and 1).  What is true about the two meshes is computed  *)
(* from all pairs of their triangles in their current poses; the           *)
(* hierarchies, the traversals and the order of results do not appear.     *)
(***************************************************************************)
EXTENDS Poly, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w, know
tvars == << h, i, w, know >>

NoKnow == [done |-> FALSE, cross |-> {}, d |-> Zero]
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >> /\ know = NoKnow

IdM == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1) >>
\* the triangles of a mesh in the world
Placed(m, A, t) == [k \in 1..Len(m.t) |-> [c \in 1..3 |-> VAdd(MulMV(A, m.v[m.t[k][c] + 1]), t)]]
Mesh(e) == LET m == [v |-> e.v, t |-> e.t] IN [m |-> m, bv |-> e.bv, wt |-> Placed(m, IdM, VZero)]

RECURSIVE SeqFar(_)
SeqFar(s) == IF s = << >> THEN Zero ELSE RMax(VNorm(s[1]), SeqFar(Tail(s)))
Ext(tri) == RMax(VNorm(tri[1]), RMax(VNorm(tri[2]), VNorm(tri[3])))
RECURSIVE ExtAll(_)
ExtAll(s) == IF s = << >> THEN Zero ELSE RMax(Ext(s[1]), ExtAll(Tail(s)))
\* length scale for rounding: how far from the origin anything lies
Scale == RQ(1, 100) ++ RMax(ExtAll(w[0].wt), ExtAll(w[1].wt))
Tol == RQ(1, 10000000) ** Scale

Pairs == (1..Len(w[0].wt)) \X (1..Len(w[1].wt))
RECURSIVE MinTri(_, _, _)
MinTri(a, b, k) == LET n == Len(b)
                       q == TriDist(a[((k - 1) \div n) + 1], b[((k - 1) % n) + 1])
                   IN IF k = 1 THEN q ELSE RMin(q, MinTri(a, b, k - 1))
Know == IF know.done THEN know
        ELSE [done |-> TRUE, cross |-> { p \in Pairs : TriCross(w[0].wt[p[1]], w[1].wt[p[2]], Tol) },
              d |-> MinTri(w[0].wt, w[1].wt, Len(w[0].wt) * Len(w[1].wt))]

Ordered(e, p) == IF e.a = 0 THEN p ELSE << p[2], p[1] >>
TA(e) == w[e.a].wt
TB(e) == w[e.b].wt
\* ------------------------------------------------------------------ collide
UnitN(v) == LET n == Normal(v) IN VScale(One // VNorm(n), n)
SupT(v, n) == MaxDot(n, v)
InfT(v, n) == MinDot(n, v)
\* a contact of triangle p (of the first mesh) and q: its normal is the outward normal of one of them,
\* seen from the first; moving the second mesh along it by the depth separates the two triangles
ContactWhy(e, c) ==
  LET p == TA(e)[c.b1 + 1]
      q == TB(e)[c.b2 + 1]
      tol == RQ(1, 100000) ** (One ++ Scale)
      nt == RQ(1, 100000)
  IN IF ~(VFin(c.n) /\ VFin(c.p) /\ RFin(c.d)) THEN "contact is not finite"
     ELSE IF ~(VNear(c.n, UnitN(p), nt) \/ VNear(c.n, VNeg(UnitN(q)), nt)) THEN "contact normal is not the normal of one of its triangles"
     ELSE IF ~RNear(c.d, SupT(p, c.n) -- InfT(q, c.n), tol) THEN "contact depth is not the overlap along the normal"
     ELSE IF ~(PtTriDist(c.p, p) \preceq tol \/ PtTriDist(c.p, q) \preceq tol) THEN "contact position on neither triangle"
     ELSE IF ~(LET x == VDot(c.n, c.p) IN (InfT(q, c.n) -- tol) \preceq x /\ x \preceq (SupT(p, c.n) ++ tol)) THEN "contact position outside the overlap"
     ELSE ""
RECURSIVE FirstWhy(_)
FirstWhy(s) == IF s = << >> THEN "" ELSE IF s[1] # "" THEN s[1] ELSE FirstWhy(Tail(s))
CollideWhy(e, K) ==
  LET cs == e.cs
      Named == { << cs[k].b1 + 1, cs[k].b2 + 1 >> : k \in 1..Len(cs) }
      Times(p) == Cardinality({ k \in 1..Len(cs) : << cs[k].b1 + 1, cs[k].b2 + 1 >> = p })
  IN IF e.ret # Len(cs) \/ e.res # (Len(cs) > 0) THEN "count, result and contacts disagree"
     ELSE IF Len(cs) > e.max THEN "more contacts than asked for"
     ELSE IF \E k \in 1..Len(cs) : cs[k].o1 # 1 \/ cs[k].o2 # 2 THEN "contact names other objects"
     ELSE IF \E p \in Named : p[1] \notin 1..Len(TA(e)) \/ p[2] \notin 1..Len(TB(e)) THEN "contact names a triangle that does not exist"
     ELSE IF \E p \in Named : Tol \prec TriDist(TA(e)[p[1]], TB(e)[p[2]]) THEN "contact between triangles that are apart"
     ELSE IF \E p \in Named : Times(p) > (IF e.con = 1 THEN 2 ELSE 1) THEN "triangle pair reported repeatedly"
     ELSE IF Len(cs) < e.max /\ ~(\A p \in K.cross : Ordered(e, p) \in Named) THEN "crossing triangles not reported"
     ELSE IF e.con = 1 THEN FirstWhy([k \in 1..Len(cs) |-> ContactWhy(e, cs[k])])
     ELSE ""
\* ------------------------------------------------------------------ distance
DistanceWhy(e, K) ==
  LET tol == RQ(1, 1000000) ** Scale
  IN IF ~RFin(e.ret) THEN "distance is not finite"
     ELSE IF e.ret # e.min THEN "returned distance differs from the result"
     ELSE IF K.cross # {} /\ tol \prec e.ret THEN "positive distance of crossing meshes"
     ELSE IF ~RNear(e.ret, K.d, tol) THEN (IF K.d \prec e.ret THEN "distance is not the minimum" ELSE "distance below the minimum")
     ELSE IF e.o1 # 1 \/ e.o2 # 2 THEN "result names other objects"
     ELSE IF e.b1 + 1 \notin 1..Len(TA(e)) \/ e.b2 + 1 \notin 1..Len(TB(e)) THEN "result names a triangle that does not exist"
     ELSE IF ~RNear(TriDist(TA(e)[e.b1 + 1], TB(e)[e.b2 + 1]), K.d, tol) THEN "the named triangles are not nearest"
     ELSE IF e.np = 1 /\ tol \prec K.d THEN
          IF ~(VFin(e.p1) /\ VFin(e.p2)) THEN "nearest points are not finite"
          ELSE IF tol \prec PtTriDist(e.p1, TA(e)[e.b1 + 1]) THEN "nearest point 1 is not on its triangle"
          ELSE IF tol \prec PtTriDist(e.p2, TB(e)[e.b2 + 1]) THEN "nearest point 2 is not on its triangle"
          ELSE IF ~RNear(VDist(e.p1, e.p2), K.d, tol) THEN "nearest points are not that far apart"
          ELSE ""
     ELSE ""

Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
Why(e, K) == CASE Fatal(e) -> e.op
               [] e.op = "refused" -> "query refused"
               [] e.op = "collide" -> CollideWhy(e, K)
               [] e.op = "distance" -> DistanceWhy(e, K)
               [] OTHER -> ""
Tag(e) == IF 0 \in DOMAIN w THEN " (" \o w[0].bv \o ")" ELSE ""
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         K == IF e.op \in {"collide", "distance"} THEN Know ELSE know
         y == Why(e, K)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y \o Tag(e) >>) ELSE TRUE
        /\ CASE e.op = "mesh" -> /\ w' = [s \in DOMAIN w \cup {e.s} |-> IF s = e.s THEN Mesh(e) ELSE w[s]]
                                 /\ know' = NoKnow
             [] e.op = "pose" -> /\ w' = [w EXCEPT ![e.s].wt = Placed(w[e.s].m, e.R, e.t)]
                                 /\ know' = NoKnow
             [] OTHER -> know' = K /\ UNCHANGED w
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
