------------------------------- MODULE MCPoly --------------------------------
(* The evaluated operators of Poly agree with their definitions, the distance *)
(* is symmetric, and a crossing excludes a distance.                          *)
EXTENDS Poly
CONSTANTS Max, Rand
L == 0..Max
\* one triangle fixed up to its shape, the other anywhere on the lattice
VARIABLES v, w
Pt(a, b, c, d) == << R(a) // R(d), R(b) // R(d), R(c) // R(d) >>
Tri(s, d) == << Pt(s[1], s[2], s[3], d), Pt(s[4], s[5], s[6], d), Pt(s[7], s[8], s[9], d) >>
Base == << << VI(0, 0, 0), VI(2, 0, 0), VI(0, 2, 0) >>, << VI(0, 0, 0), VI(2, 1, 0), VI(1, 2, 2) >>, << VI(0, 0, 0), VI(1, 1, 1), VI(2, 2, 2) >>, << VI(1, 0, 2), VI(1, 2, 0), VI(1, 2, 2) >> >>
Init == \/ v \in { Base[k] : k \in 1..4 } /\ \E a, b, c \in L \X L \X L : w = << VI(a[1], a[2], a[3]), VI(b[1], b[2], b[3]), VI(c[1], c[2], c[3]) >>
        \/ \E k \in 1..Rand : v = Tri([j \in 1..9 |-> RandomElement(0..1000)], 300 + 0 * k) /\ w = Tri([j \in 1..9 |-> RandomElement(0..1000)], 250)
Next == UNCHANGED << v, w >>
E == RQ(1, 1000000000)
Agree == /\ RNear(TriDist(v, w), TriDist_(v, w), E)
         /\ RNear(SegDist(v[1], v[2], w[1], w[2]), SegDist_(v[1], v[2], w[1], w[2]), E)
         /\ RNear(PtTriDist(v[1], w), PtTriDist_(v[1], w), E)
         /\ \A m \in {Zero, RQ(1, 10)} : TriCross(v, w, m) = TriCross_(v, w, m)
Symmetric == RNear(TriDist(v, w), TriDist(w, v), E) /\ TriCross(v, w, RQ(1, 10)) = TriCross(w, v, RQ(1, 10))
Exclusive == TriCross(v, w, RQ(1, 100)) => TriDist(v, w) \preceq E
\* some pair of sample points is no closer than the distance
Bound == LET s(t) == << t[1], t[2], t[3], VScale(RQ(1, 2), VAdd(t[1], t[2])), VScale(RQ(1, 3), VAdd(VAdd(t[1], t[2]), t[3])) >>
         IN \A i, j \in 1..5 : TriDist(v, w) \preceq (VDist(s(v)[i], s(w)[j]) ++ E)
=============================================================================
