-------------------------------- MODULE Mass ---------------------------------
(***************************************************************************)
(* Volume, center of mass and inertia of the bodies of module Geo at unit  *)
(* density, from their definitions as integrals.                           *)
(* A round body is cut into slices along its axis: at height z it has an   *)
(* elliptic section with semi-axes of squares a2, b2 and product ab.  The  *)
(* integrands are polynomials of degree four at most in z on every piece,  *)
(* which Boole's rule integrates exactly.  A polyhedron is cut into        *)
(* tetrahedra with an apex inside.                                         *)
(***************************************************************************)
EXTENDS Geo
Pi == (R(3) ++ RQ(141592653, 1000000000)) ++ (RQ(589793238, 1000000000) // R(1000000000))
Sq(x) == x ** x
Pieces(b) ==
  CASE b.k = "sphere"    -> << << RNeg(b.p[1]), b.p[1] >> >>
    [] b.k = "ellipsoid" -> << << RNeg(b.p[3]), b.p[3] >> >>
    [] b.k = "capsule"   -> LET h == Half(b.p[2]) IN << << RNeg(h ++ b.p[1]), RNeg(h) >>, << RNeg(h), h >>, << h, h ++ b.p[1] >> >>
    [] b.k \in {"cylinder", "cone", "box"} -> LET h == Half(b.p[IF b.k = "box" THEN 3 ELSE 2]) IN << << RNeg(h), h >> >>
Sec(b, z) ==
  LET round(q) == [ab |-> q, a2 |-> q, b2 |-> q]
  IN CASE b.k = "sphere"   -> round(Sq(b.p[1]) -- Sq(z))
       [] b.k = "ellipsoid" -> LET q == One -- Sq(z // b.p[3]) IN [ab |-> (b.p[1] ** b.p[2]) ** q, a2 |-> Sq(b.p[1]) ** q, b2 |-> Sq(b.p[2]) ** q]
       [] b.k = "capsule"  -> round(Sq(b.p[1]) -- Sq(RMax(Zero, RAbs(z) -- Half(b.p[2]))))
       [] b.k = "cylinder" -> round(Sq(b.p[1]))
       [] b.k = "cone"     -> round(Sq(b.p[1] ** (Half(One) -- (z // b.p[2]))))
\* of one slice: area, first moment in z, second moments (x2, y2, z2)
Slice(b, z) ==
  IF b.k = "box" THEN LET A == b.p[1] ** b.p[2] IN << A, A ** z, A ** (Sq(b.p[1]) // R(12)), A ** (Sq(b.p[2]) // R(12)), A ** Sq(z) >>
  ELSE LET s == Sec(b, z)
           A == Pi ** s.ab
       IN << A, A ** z, A ** (s.a2 // R(4)), A ** (s.b2 // R(4)), A ** Sq(z) >>
Boole(b, q, c) ==
  LET h == (q[2] -- q[1]) // R(4)
      f(i) == Slice(b, q[1] ++ (R(i) ** h))[c]
  IN ((R(4) ** h) // R(90)) ** ((((R(7) ** f(0)) ++ (R(32) ** f(1))) ++ (R(12) ** f(2))) ++ ((R(32) ** f(3)) ++ (R(7) ** f(4))))
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN Zero ELSE s[1] ++ Sum(Tail(s))
Whole(b, c) == Sum([i \in 1..Len(Pieces(b)) |-> Boole(b, Pieces(b)[i], c)])
\* measures: v volume, m first moments, s second moments <<xx, yy, zz, xy, xz, yz>>
RoundMeasure(b) == [v |-> Whole(b, 1), m |-> << Zero, Zero, Whole(b, 2) >>, s |-> << Whole(b, 3), Whole(b, 4), Whole(b, 5), Zero, Zero, Zero >>]

\* polyhedra
Fan(f) == [j \in 1..(Len(f) - 2) |-> << f[1], f[j + 1], f[j + 2] >>]
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE s[1] \o Flat(Tail(s))
Triangles(b) == IF b.k = "convex" THEN Flat([i \in 1..Len(b.f) |-> Fan(b.f[i])]) ELSE b.t
Tet(o, a, b, c) ==
  LET v == VDot(VSub(a, o), VCross(VSub(b, o), VSub(c, o))) // R(6)
      g == VScale(One // R(4), VAdd(VAdd(o, a), VAdd(b, c)))
      sec(i, j) == (v // R(20)) ** ((((o[i] ** o[j]) ++ (a[i] ** a[j])) ++ ((b[i] ** b[j]) ++ (c[i] ** c[j]))) ++ (R(16) ** (g[i] ** g[j])))
  IN [v |-> v, m |-> VScale(v, g), s |-> << sec(1, 1), sec(2, 2), sec(3, 3), sec(1, 2), sec(1, 3), sec(2, 3) >>]
PolyMeasure(b) ==
  LET T == Triangles(b)
      o == VScale(One // R(Len(b.v)), VSum(b.v))
      q == [i \in 1..Len(T) |-> Tet(o, b.v[T[i][1] + 1], b.v[T[i][2] + 1], b.v[T[i][3] + 1])]
  IN [v |-> Sum([i \in 1..Len(T) |-> q[i].v]),
      m |-> [c \in 1..3 |-> Sum([i \in 1..Len(T) |-> q[i].m[c]])],
      s |-> [c \in 1..6 |-> Sum([i \in 1..Len(T) |-> q[i].s[c]])]]
Measure(b) == IF b.k \in {"convex", "mesh"} THEN PolyMeasure(b) ELSE RoundMeasure(b)
COM(M) == VScale(One // M.v, M.m)
Inertia(s) == << << s[2] ++ s[3], RNeg(s[4]), RNeg(s[5]) >>, << RNeg(s[4]), s[1] ++ s[3], RNeg(s[6]) >>, << RNeg(s[5]), RNeg(s[6]), s[1] ++ s[2] >> >>
\* second moments about the center of mass
Central(M) == LET g == COM(M)
                  at == << << 1, 1 >>, << 2, 2 >>, << 3, 3 >>, << 1, 2 >>, << 1, 3 >>, << 2, 3 >> >>
              IN [c \in 1..6 |-> M.s[c] -- (M.v ** (g[at[c][1]] ** g[at[c][2]]))]
=============================================================================
