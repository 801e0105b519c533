------------------------------- MODULE MCGeo --------------------------------
(***************************************************************************)
(* Sanity of the geometry specification itself, checked exhaustively for   *)
(* small bodies of every kind on a lattice of poses and directions: the    *)
(* two descriptions of a body (support function and membership) agree, and *)
(* the certificates about a pair never contradict each other.              *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Offsets
VARIABLES a, b, n, ph
vars == << a, b, n, ph >>
I3 == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1) >>
Q3 == << VI(0, -1, 0), VI(1, 0, 0), VI(0, 0, 1) >>      \* quarter turn about z
X3 == << VI(1, 0, 0), VI(0, 0, -1), VI(0, 1, 0) >>      \* quarter turn about x
Tet == << VI(1, 1, 1), VI(-1, -1, 1), VI(-1, 1, -1), VI(1, -1, -1) >>
TetF == << << 0, 2, 1 >>, << 0, 1, 3 >>, << 0, 3, 2 >>, << 1, 2, 3 >> >>
B(k, p, v, f) == [k |-> k, p |-> p, v |-> v, f |-> f, t |-> << >>, R |-> I3, t0 |-> VZero]
Bodies == { B("sphere", << R(1) >>, << >>, << >>), B("box", << R(2), R(1), R(3) >>, << >>, << >>),
            B("ellipsoid", << R(1), R(2), R(1) >>, << >>, << >>), B("capsule", << R(1), R(2) >>, << >>, << >>),
            B("cylinder", << R(1), R(2) >>, << >>, << >>), B("cone", << R(1), R(2) >>, << >>, << >>),
            B("convex", << >>, Tet, TetF) }
Dirs == { VI(x, y, z) : x, y, z \in -1..1 } \ { VZero }
Init == /\ a \in Bodies
        /\ b \in { [c EXCEPT !.R = M, !.t0 = t] : c \in Bodies, M \in {I3, Q3, X3}, t \in { VI(x, y, z) : x \in Offsets, y \in {0, 1}, z \in Offsets } }
        /\ n = VZero /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ n' \in Dirs /\ UNCHANGED << a, b >>
eps == RQ(1, 1000000)
\* the support point is in the body and attains the support
SupportOK == ph = 1 => \A c \in {a, b} : LET p == SupPt(c, n) IN In(c, p, eps) /\ RNear(VDot(n, p), Sup(c, n), eps)
\* no support point of another direction is higher
SupportMax == ph = 1 => \A m \in {VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1), VI(-1, -1, -1)} : VDot(n, SupPt(b, m)) \preceq (Sup(b, n) ++ eps)
\* and points beyond it are outside
Outside == ph = 1 => \A c \in {a, b} : ~In(c, VAdd(SupPt(c, n), VScale(RQ(1, 10), Unit(n))), RQ(1, 100))
GapSym == ph = 1 => RNear(GapAlong(a, b, Unit(n)), GapAlong(b, a, VNeg(Unit(n))), eps)
\* certificates: apart and meeting exclude each other, in both orders
DecideOK == ph = 0 => LET r == Decide(a, b, RQ(1, 1000))
                          s == Decide(b, a, RQ(1, 1000))
                      IN /\ ~(Zero \prec r.lo /\ (r.hit \/ s.hit))
                         /\ ~(Zero \prec s.lo /\ r.hit)
\* a direction's gap never exceeds the distance of any two points
GapBound == ph = 1 => GapAlong(a, b, Unit(n)) \preceq (VDist(SupPt(a, n), SupPt(b, VNeg(n))) ++ eps)
=============================================================================
