------------------------------- MODULE Things -------------------------------
(***************************************************************************)
(* A thing is a set of convex parts: an octree is the boxes of its         *)
(* occupied cells, a mesh its triangles, a shape one part.  What is true   *)
(* about two things is computed from all pairs of their parts: bounds of   *)
(* their distance and whether they meet robustly.                          *)
(***************************************************************************)
EXTENDS Geo, Poly

IdM == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1) >>
\* ------------------------------------------------------------------ things
\* a thing: k, R, t0; cells (octree), m (mesh), b (shape); occ, free: the octree's thresholds
Occupied(x, c) == x.occ \preceq c.pr
Free(x, c) == c.pr \preceq x.free
OctThing(e) == [k |-> "octree", R |-> IdM, t0 |-> VZero, cells |-> e.cells, occ |-> RQ(1, 2), free |-> RQ(1, 2), name |-> "octree"]
MeshThing(e) == [k |-> "mesh", R |-> IdM, t0 |-> VZero, v |-> e.v, t |-> e.t, name |-> e.bv]
ShapeThing(e) == [k |-> "shape", R |-> IdM, t0 |-> VZero, b |-> [k |-> e.k, p |-> e.p, v |-> e.v, f |-> e.f, t |-> e.t], name |-> e.k]
Thing(e) == IF e.op = "octree" THEN OctThing(e) ELSE IF e.op = "mesh" THEN MeshThing(e) ELSE ShapeThing(e)
\* its parts, by their numbers (leaf, triangle; 1 for a shape)
Nums(x) == IF x.k = "octree" THEN { q \in 1..Len(x.cells) : Occupied(x, x.cells[q]) } ELSE IF x.k = "mesh" THEN 1..Len(x.t) ELSE {1}
Part(x, q) ==
  IF x.k = "octree" THEN
    LET c == x.cells[q]
    IN [k |-> "box", p |-> VSub(c.hi, c.lo), v |-> << >>, f |-> << >>, R |-> x.R, t0 |-> VAdd(MulMV(x.R, VScale(HalfOf(One), VAdd(c.lo, c.hi))), x.t0)]
  ELSE IF x.k = "mesh" THEN
    [k |-> "triangle", p |-> << >>, v |-> [c \in 1..3 |-> VAdd(MulMV(x.R, x.v[x.t[q][c] + 1]), x.t0)], f |-> << >>, R |-> IdM, t0 |-> VZero]
  ELSE [k |-> x.b.k, p |-> x.b.p, v |-> x.b.v, f |-> x.b.f, R |-> x.R, t0 |-> x.t0]
\* the number of a part as a query names it
NumOf(x, id) == IF x.k = "shape" THEN (IF id = -1 THEN 1 ELSE 0) ELSE id + 1

\* ------------------------------------------------------------------ two parts
\* radius of a ball around the center that contains the part
Reach(b) == IF b.k = "box" THEN Half(VNorm(b.p))
            ELSE IF b.k \in {"convex", "triangle"} THEN LET c == LCenter(b) IN SeqMaxNorm([q \in 1..Len(b.v) |-> VSub(b.v[q], c)])
            ELSE Size(b)
Scale2(a, b) == RQ(1, 100) ++ RMax(Reach(a), IF Bounded(b) THEN Reach(b) ELSE Zero)
\* surfaces of polyhedra as triangles
RECURSIVE FanOf(_, _)
FanOf(b, f) == IF Len(f) < 3 THEN << >>
               ELSE << << ToWorld(b, b.v[f[1] + 1]), ToWorld(b, b.v[f[Len(f) - 1] + 1]), ToWorld(b, b.v[f[Len(f)] + 1]) >> >> \o FanOf(b, SubSeq(f, 1, Len(f) - 1))
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE s[1] \o Cat(Tail(s))
BoxFaces == << <<0, 1, 3, 2>>, <<4, 6, 7, 5>>, <<0, 4, 5, 1>>, <<2, 3, 7, 6>>, <<0, 2, 6, 4>>, <<1, 5, 7, 3>> >>
Corners(p) == [q \in 1..8 |-> << IF q > 4 THEN Half(p[1]) ELSE RNeg(Half(p[1])), IF ((q - 1) \div 2) % 2 = 1 THEN Half(p[2]) ELSE RNeg(Half(p[2])),
                                 IF (q - 1) % 2 = 1 THEN Half(p[3]) ELSE RNeg(Half(p[3])) >>]
Surface(b) == IF b.k = "triangle" THEN << [c \in 1..3 |-> ToWorld(b, b.v[c])] >>
              ELSE IF b.k = "box" THEN LET c == [b EXCEPT !.v = Corners(b.p)] IN Cat([q \in 1..6 |-> FanOf(c, BoxFaces[q])])
              ELSE Cat([q \in 1..Len(b.f) |-> FanOf(b, b.f[q])])
IsPoly(b) == b.k \in {"box", "convex", "triangle"}
RECURSIVE MinTo(_, _)
MinTo(x, s) == IF s = << >> THEN R(1000000) ELSE RMin(TriDist(x, s[1]), MinTo(x, Tail(s)))
RECURSIVE MinBetween(_, _)
MinBetween(s, u) == IF s = << >> THEN R(1000000) ELSE RMin(MinTo(s[1], u), MinBetween(Tail(s), u))
PolyDist(a, b) == IF (b.k # "triangle" /\ In(b, Center(a), Zero)) \/ (a.k # "triangle" /\ In(a, Center(b), Zero)) THEN Zero
                  ELSE MinBetween(Surface(a), Surface(b))
\* ball and box
BallBox(s, b) == LET x == ToLocal(b, s.t0)
                 IN RMax(Zero, VNorm([q \in 1..3 |-> RMax(Zero, RAbs(x[q]) -- Half(b.p[q]))]) -- s.p[1])

\* descent on the distance of two convex bodies: the points found bound it from above, the directions from below
RECURSIVE Near2(_, _, _, _, _, _, _)
Near2(a, b, pa, pb, lo, eps, k) ==
  LET v  == VSub(pb, pa)
      m  == VNorm(v)
      n  == Unit(v)
      sa == SupPt(a, n)
      sb == SupPt(b, VNeg(n))
      nlo == RMax(lo, VDot(n, VSub(sb, sa)))
      d  == VSub(VSub(sb, sa), v)
      dd == VDot(d, d)
      t  == IF dd \preceq Zero THEN Zero ELSE RMax(Zero, RMin(One, RNeg(VDot(v, d)) // dd))
  IN IF k = 0 \/ m \preceq eps \/ (m -- nlo) \preceq eps \/ t \preceq Zero THEN [lo |-> nlo, hi |-> m]
     ELSE Near2(a, b, VAdd(VScale(One -- t, pa), VScale(t, sa)), VAdd(VScale(One -- t, pb), VScale(t, sb)), nlo, eps, k - 1)
\* both bodies hold a neighbourhood of x (as far as they have a volume)
Deep(b, x, m) == IF b.k = "triangle" THEN InTri(b.v, x, m // R(4)) ELSE In(b, x, RNeg(m))
Robust(a, b, x, m) == IF a.k = "triangle" \/ b.k = "triangle" THEN Deep(a, x, m) /\ Deep(b, x, m) ELSE HitPoint(a, b, x, m)
\* lo, hi: bounds of the distance; hit: they meet, and would after any small change
TwoParts(a, b) ==
  LET m == RQ(1, 1000) ** Scale2(a, b) IN
  IF ~Bounded(b) THEN
    LET l == Inf(a, WN(b)) -- WD(b)
        u == Sup(a, WN(b)) -- WD(b)
        g == IF b.k = "halfspace" THEN RMax(l, Zero) ELSE RMax(Zero, RMax(l, RNeg(u)))
    IN [lo |-> g, hi |-> g, hit |-> l \prec RNeg(m) /\ (b.k = "halfspace" \/ m \prec u)]
  ELSE IF a.k = "triangle" /\ b.k = "triangle" THEN
    LET s == Surface(a)[1]
        u == Surface(b)[1]
        d == TriDist(s, u)
    IN [lo |-> d, hi |-> d, hit |-> TriCross(s, u, m)]
  ELSE LET r == FW(a, b, RQ(97, 100), Center(a), Center(b), Minus1e9, VI(0, 0, 1), 40)
           hit == ~(Zero \prec r.lo) /\ Robust(a, b, r.x, m)
       IN IF IsPoly(a) /\ IsPoly(b) THEN LET d == IF hit THEN Zero ELSE PolyDist(a, b) IN [lo |-> d, hi |-> d, hit |-> hit]
          ELSE IF a.k = "box" /\ b.k = "sphere" THEN LET d == BallBox(b, a) IN [lo |-> d, hi |-> d, hit |-> hit]
          ELSE IF a.k = "sphere" /\ b.k = "box" THEN LET d == BallBox(a, b) IN [lo |-> d, hi |-> d, hit |-> hit]
          ELSE LET f == Near2(a, b, Center(a), Center(b), r.lo, RQ(1, 10000) ** Scale2(a, b), 40)
                   g == RMax(Zero, f.lo)
               IN [lo |-> g, hi |-> RMax(g, f.hi), hit |-> hit /\ ~(Zero \prec f.lo)]
\* most pairs are far apart: bounds by balls
Coarse(a, b) == IF ~Bounded(b) THEN [lo |-> Zero, hi |-> R(1000000)]
                ELSE LET d == VDist(Center(a), Center(b)) IN [lo |-> RMax(Zero, d -- (Reach(a) ++ Reach(b))), hi |-> d]
RECURSIVE MinHi(_, _)
MinHi(f, S) == LET x == CHOOSE x \in S : TRUE IN IF Cardinality(S) = 1 THEN f[x].hi ELSE RMin(f[x].hi, MinHi(f, S \ {x}))
RECURSIVE MinLo(_, _)
MinLo(f, S) == LET x == CHOOSE x \in S : TRUE IN IF Cardinality(S) = 1 THEN f[x].lo ELSE RMin(f[x].lo, MinLo(f, S \ {x}))
\* what is true about two things
NoFacts == [t |-> << >>, lo |-> R(1000000), hi |-> R(1000000), hit |-> FALSE, none |-> TRUE]
Facts(x, y) ==
  LET S == Nums(x) \X Nums(y)
      a == [q \in Nums(x) |-> Part(x, q)]
      b == [q \in Nums(y) |-> Part(y, q)]
      c == [z \in S |-> Coarse(a[z[1]], b[z[2]])]
      u == MinHi(c, S)
      t == [z \in S |-> IF u \prec c[z].lo THEN [lo |-> c[z].lo, hi |-> c[z].hi, hit |-> FALSE] ELSE TwoParts(a[z[1]], b[z[2]])]
  IN IF S = {} THEN NoFacts ELSE [t |-> t, lo |-> MinLo(t, S), hi |-> MinHi(t, S), hit |-> \E z \in S : t[z].hit, none |-> FALSE]
=============================================================================
