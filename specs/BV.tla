--------------------------------- MODULE BV ----------------------------------
(***************************************************************************)
(* Bounding volumes as sets of points.  A volume is a record with k and    *)
(*   AABB    lo, hi                                                        *)
(*   OBB     A (rows of the matrix whose columns are the axes), T the      *)
(*           center, E the half extents                                    *)
(*   RSS     A, T a corner of the rectangle, l its two sides, r            *)
(*   kIOS    s spheres [o, r], and the OBB A, T, E                         *)
(*   OBBRSS  the OBB A, T, E and the RSS A2, T2, l, r                      *)
(*   KDOP    d : lower bounds along the k/2 directions, then upper bounds  *)
(* A kIOS (OBBRSS) stands for the intersection of its parts: it encloses   *)
(* something only if every part does.                                      *)
(***************************************************************************)
EXTENDS Real64, FiniteSets

\* the directions of the k-DOPs, in the order documented with the class
Dirs9 == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1), VI(1, 1, 0), VI(1, 0, 1), VI(0, 1, 1), VI(1, -1, 0), VI(1, 0, -1), VI(0, 1, -1) >>
KDirs(k) == CASE k = 16 -> SubSeq(Dirs9, 1, 8) [] k = 18 -> Dirs9 [] k = 24 -> Dirs9 \o << VI(1, 1, -1), VI(1, -1, 1), VI(-1, 1, 1) >>

InOBB(A, T, E, x, e) == LET y == MulMTV(A, VSub(x, T)) IN \A i \in 1..3 : RAbs(y[i]) \preceq (E[i] ++ e)
\* distance of x from the rectangle
Clamp(v, hi) == RMax(Zero, RMin(hi, v))
RectDist(A, T, l, x) == LET y == MulMTV(A, VSub(x, T)) IN VDist(y, << Clamp(y[1], l[1]), Clamp(y[2], l[2]), Zero >>)
InRSS(A, T, l, r, x, e) == RectDist(A, T, l, x) \preceq (r ++ e)
InBV(b, x, e) ==
  CASE b.k = "AABB"   -> \A i \in 1..3 : (b.lo[i] -- e) \preceq x[i] /\ x[i] \preceq (b.hi[i] ++ e)
    [] b.k = "OBB"    -> InOBB(b.A, b.T, b.E, x, e)
    [] b.k = "RSS"    -> InRSS(b.A, b.T, b.l, b.r, x, e)
    [] b.k = "kIOS"   -> InOBB(b.A, b.T, b.E, x, e) /\ \A i \in 1..Len(b.s) : VDist(b.s[i].o, x) \preceq (b.s[i].r ++ e)
    [] b.k = "OBBRSS" -> InOBB(b.A, b.T, b.E, x, e) /\ InRSS(b.A2, b.T2, b.l, b.r, x, e)
    [] b.k = "KDOP"   -> LET n == Len(b.d) \div 2
                             D == KDirs(Len(b.d))
                         IN \A i \in 1..n : LET v == VDot(D[i], x) IN (b.d[i] -- e) \preceq v /\ v \preceq (b.d[n + i] ++ e)
\* axes are orthonormal (either handedness)
Ortho(A) == \A i, j \in 1..3 : RNear((A[1][i] ** A[1][j]) ++ ((A[2][i] ** A[2][j]) ++ (A[3][i] ** A[3][j])), IF i = j THEN One ELSE Zero, RQ(1, 1000000))
WellFormed(b) ==
  CASE b.k = "AABB"   -> \A i \in 1..3 : b.lo[i] \preceq b.hi[i]
    [] b.k = "OBB"    -> Ortho(b.A) /\ \A i \in 1..3 : Zero \preceq b.E[i]
    [] b.k = "RSS"    -> Ortho(b.A) /\ Zero \preceq b.l[1] /\ Zero \preceq b.l[2] /\ Zero \preceq b.r
    [] b.k = "kIOS"   -> Ortho(b.A) /\ (\A i \in 1..3 : Zero \preceq b.E[i]) /\ Len(b.s) \in 1..5 /\ \A i \in 1..Len(b.s) : Zero \preceq b.s[i].r
    [] b.k = "OBBRSS" -> Ortho(b.A) /\ Ortho(b.A2) /\ (\A i \in 1..3 : Zero \preceq b.E[i]) /\ Zero \preceq b.l[1] /\ Zero \preceq b.l[2] /\ Zero \preceq b.r
    [] b.k = "KDOP"   -> LET n == Len(b.d) \div 2 IN \A i \in 1..n : b.d[i] \preceq b.d[n + i]
=============================================================================
