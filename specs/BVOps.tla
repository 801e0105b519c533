-------------------------------- MODULE BVOps --------------------------------
(***************************************************************************)
(* The algebra of bounding volumes.  Registers hold a volume and the set   *)
(* of points it has been made for; every operation that builds a volume    *)
(* must keep enclosing all of them.  What overlap, distance and            *)
(* containment may answer follows from the volumes as point sets.          *)
(***************************************************************************)
EXTENDS BV, Poly

\* ------------------------------------------------------------ motion of volumes and points
Place(Q, t, x) == VAdd(MulMV(Q, x), t)
MatMul(A, B) == << << VDot(A[1], << B[1][1], B[2][1], B[3][1] >>), VDot(A[1], << B[1][2], B[2][2], B[3][2] >>), VDot(A[1], << B[1][3], B[2][3], B[3][3] >>) >>,
                   << VDot(A[2], << B[1][1], B[2][1], B[3][1] >>), VDot(A[2], << B[1][2], B[2][2], B[3][2] >>), VDot(A[2], << B[1][3], B[2][3], B[3][3] >>) >>,
                   << VDot(A[3], << B[1][1], B[2][1], B[3][1] >>), VDot(A[3], << B[1][2], B[2][2], B[3][2] >>), VDot(A[3], << B[1][3], B[2][3], B[3][3] >>) >> >>
Moved(b, Q, t) ==
  CASE b.k = "OBB" -> [b EXCEPT !.A = MatMul(Q, b.A), !.T = Place(Q, t, b.T)]
    [] b.k = "RSS" -> [b EXCEPT !.A = MatMul(Q, b.A), !.T = Place(Q, t, b.T)]
    [] b.k = "kIOS" -> [b EXCEPT !.A = MatMul(Q, b.A), !.T = Place(Q, t, b.T), !.s = [i \in 1..Len(b.s) |-> [b.s[i] EXCEPT !.o = Place(Q, t, b.s[i].o)]]]
    [] b.k = "OBBRSS" -> [b EXCEPT !.A = MatMul(Q, b.A), !.T = Place(Q, t, b.T), !.A2 = MatMul(Q, b.A2), !.T2 = Place(Q, t, b.T2)]

\* ------------------------------------------------------------ sample points of a volume
Signs == << VI(1, 1, 1), VI(1, 1, -1), VI(1, -1, 1), VI(1, -1, -1), VI(-1, 1, 1), VI(-1, 1, -1), VI(-1, -1, 1), VI(-1, -1, -1) >>
BoxPts(A, T, E) == { VAdd(T, MulMV(A, << s[1] ** E[1], s[2] ** E[2], s[3] ** E[3] >>)) : s \in { Signs[k] : k \in 1..8 } }
Ball == { VI(1, 0, 0), VI(-1, 0, 0), VI(0, 1, 0), VI(0, -1, 0), VI(0, 0, 1), VI(0, 0, -1) } \cup { VScale(RQ(577, 1000), Signs[k]) : k \in 1..8 }
SweptPts(A, T, l, r) == { VAdd(VAdd(T, MulMV(A, << c[1], c[2], Zero >>)), VScale(r, d)) : c \in {Zero, l[1]} \X {Zero, l[2]}, d \in Ball }
Samples(b) ==
  CASE b.k = "AABB" -> { << x, y, z >> : x \in {b.lo[1], b.hi[1]}, y \in {b.lo[2], b.hi[2]}, z \in {b.lo[3], b.hi[3]} }
    [] b.k = "OBB" -> BoxPts(b.A, b.T, b.E)
    [] b.k = "RSS" -> SweptPts(b.A, b.T, b.l, b.r)
    [] b.k = "kIOS" -> { x \in BoxPts(b.A, b.T, b.E) \cup {b.T} : InBV(b, x, Zero) }
    [] b.k = "OBBRSS" -> { x \in BoxPts(b.A, b.T, b.E) \cup SweptPts(b.A2, b.T2, b.l, b.r) \cup {b.T} : InBV(b, x, Zero) }
    [] b.k = "KDOP" -> LET N == Len(b.d) \div 2 IN { x \in { << b.d[i], b.d[j], b.d[k] >> : i \in {1, N + 1}, j \in {2, N + 2}, k \in {3, N + 3} } : InBV(b, x, Zero) }

\* ------------------------------------------------------------ two volumes
\* each of the following is the amount by which the volumes are apart (positive) or overlap (negative)
RECURSIVE MaxR(_)
MaxR(S) == LET x == CHOOSE x \in S : TRUE IN IF Cardinality(S) = 1 THEN x ELSE RMax(x, MaxR(S \ {x}))
AABBGap(a, b) == MaxR(UNION { {a.lo[i] -- b.hi[i], b.lo[i] -- a.hi[i]} : i \in 1..3 })
KDOPGap(a, b) == LET n == Len(a.d) \div 2 IN MaxR(UNION { {a.d[i] -- b.d[n + i], b.d[i] -- a.d[n + i]} : i \in 1..n })
Col(A, i) == << A[1][i], A[2][i], A[3][i] >>
RadAlong(b, n) == (RAbs(VDot(Col(b.A, 1), n)) ** b.E[1]) ++ ((RAbs(VDot(Col(b.A, 2), n)) ** b.E[2]) ++ (RAbs(VDot(Col(b.A, 3), n)) ** b.E[3]))
GapOn(a, b, n) == RAbs(VDot(VSub(b.T, a.T), n)) -- (RadAlong(a, n) ++ RadAlong(b, n))
Faces(a, b) == { Col(a.A, i) : i \in 1..3 } \cup { Col(b.A, i) : i \in 1..3 }
Crosses(a, b) == { VCross(Col(a.A, i), Col(b.A, j)) : i \in 1..3, j \in 1..3 }
\* separation along face normals and normalised cross products; near-parallel edges give none
OBBSep(a, b) == MaxR({ GapOn(a, b, n) : n \in Faces(a, b) } \cup { GapOn(a, b, VScale(One // VNorm(c), c)) : c \in { x \in Crosses(a, b) : RQ(1, 100) \prec VNorm(x) } })
\* the cross products of near-parallel edges could still separate: then nobody knows
OBBClear(a, b) == \A c \in Crosses(a, b) : RQ(1, 100) \prec VNorm(c) \/ VNorm(c) \prec RQ(1, 10000000)
RSSGap(a, b) == RectRect(RectTris(a.A, a.T, a.l), RectTris(b.A, b.T, b.l)) -- (a.r ++ b.r)
RPart(b) == [k |-> "RSS", A |-> b.A2, T |-> b.T2, l |-> b.l, r |-> b.r]
SphereGap(a, b) == MaxR({ VDist(a.s[i].o, b.s[j].o) -- (a.s[i].r ++ b.s[j].r) : i \in 1..Len(a.s), j \in 1..Len(b.s) })
\* they meet / they are apart, by more than e
Meet(a, b, e) ==
  CASE a.k = "AABB" -> AABBGap(a, b) \preceq RNeg(e)
    [] a.k = "KDOP" -> KDOPGap(a, b) \preceq RNeg(e)
    [] a.k = "OBB" -> OBBClear(a, b) /\ OBBSep(a, b) \preceq RNeg(e)
    [] a.k = "RSS" -> RSSGap(a, b) \preceq RNeg(e)
    [] a.k = "kIOS" -> SphereGap(a, b) \preceq RNeg(e) /\ OBBClear(a, b) /\ OBBSep(a, b) \preceq RNeg(e)
    [] a.k = "OBBRSS" -> OBBClear(a, b) /\ OBBSep(a, b) \preceq RNeg(e) /\ RSSGap(RPart(a), RPart(b)) \preceq RNeg(e)
Apart(a, b, e) ==
  CASE a.k = "AABB" -> e \prec AABBGap(a, b)
    [] a.k = "KDOP" -> e \prec KDOPGap(a, b)
    [] a.k = "OBB" -> e \prec OBBSep(a, b)
    [] a.k = "RSS" -> e \prec RSSGap(a, b)
    [] a.k = "kIOS" -> e \prec SphereGap(a, b) /\ e \prec OBBSep(a, b)
    [] a.k = "OBBRSS" -> e \prec OBBSep(a, b) /\ e \prec RSSGap(RPart(a), RPart(b))
\* the distance the library promises for a type
AABBDist(a, b) == VNorm(<< RMax(Zero, RMax(a.lo[1] -- b.hi[1], b.lo[1] -- a.hi[1])), RMax(Zero, RMax(a.lo[2] -- b.hi[2], b.lo[2] -- a.hi[2])), RMax(Zero, RMax(a.lo[3] -- b.hi[3], b.lo[3] -- a.hi[3])) >>)
DistOf(a, b) ==
  CASE a.k = "AABB" -> AABBDist(a, b)
    [] a.k = "RSS" -> RMax(Zero, RSSGap(a, b))
    [] a.k = "OBBRSS" -> RMax(Zero, RSSGap(RPart(a), RPart(b)))
    [] a.k = "kIOS" -> RMax(Zero, SphereGap(a, b))
\* containment as the types define it (a kIOS by its spheres)
Has(b, x, e) == IF b.k = "kIOS" THEN \A i \in 1..Len(b.s) : VDist(b.s[i].o, x) \preceq (b.s[i].r ++ e)
                ELSE IF b.k = "OBBRSS" THEN InOBB(b.A, b.T, b.E, x, e) ELSE InBV(b, x, e)
=============================================================================
