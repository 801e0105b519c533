-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Segments and triangles in space: their distances and crossings.  The    *)
(* operators TriDist, TriCross, SegDist and PtTriDist are what the other   *)
(* specifications use; java/fclv/Overrides.java evaluates them for speed,  *)
(* and MCPoly checks that it agrees with the definitions below (the        *)
(* operators whose names end in _) on lattice and random triangles.        *)
(***************************************************************************)
EXTENDS Real64, FiniteSets, TLC

Clip(t) == RMax(Zero, RMin(One, t))
\* point x to segment pq
PtSegDist_(x, p, q) ==
  LET d == VSub(q, p)
      dd == VDot(d, d)
      t == IF dd \preceq Zero THEN Zero ELSE Clip(VDot(VSub(x, p), d) // dd)
  IN VDist(x, VAdd(p, VScale(t, d)))
\* two segments: at the ends, or where the common perpendicular meets both
SegDist_(p, q, r, s) ==
  LET u == VSub(q, p)
      v == VSub(s, r)
      w == VSub(p, r)
      a == VDot(u, u)
      b == VDot(u, v)
      c == VDot(v, v)
      d == VDot(u, w)
      e == VDot(v, w)
      D == (a ** c) -- (b ** b)
      ends == RMin(RMin(PtSegDist_(p, r, s), PtSegDist_(q, r, s)), RMin(PtSegDist_(r, p, q), PtSegDist_(s, p, q)))
      t == ((b ** e) -- (c ** d)) // D
      z == ((a ** e) -- (b ** d)) // D
  IN IF Zero \prec D /\ Zero \preceq t /\ t \preceq One /\ Zero \preceq z /\ z \preceq One
     THEN RMin(ends, VDist(VAdd(p, VScale(t, u)), VAdd(r, VScale(z, v))))
     ELSE ends
Normal(v) == VCross(VSub(v[2], v[1]), VSub(v[3], v[1]))
\* x, projected to the plane of v, lies at least m inside the triangle
Inside_(v, x, m) ==
  LET n == Normal(v)
      l == VNorm(n)
      side(i, j) == LET d == VSub(v[j], v[i]) IN ((m ** VNorm(d)) ** l) \preceq VDot(n, VCross(d, VSub(x, v[i])))
  IN Zero \prec l /\ side(1, 2) /\ side(2, 3) /\ side(3, 1)
PtTriDist_(x, v) ==
  LET n == Normal(v)
      l == VNorm(n)
      rim == RMin(RMin(PtSegDist_(x, v[1], v[2]), PtSegDist_(x, v[2], v[3])), PtSegDist_(x, v[3], v[1]))
  IN IF Inside_(v, x, Zero) THEN RAbs(VDot(n, VSub(x, v[1]))) // l ELSE rim
\* the segment pq passes through the triangle v: its ends are more than m on either side, and it meets
\* the plane at least m inside
Pierce_(p, q, v, m) ==
  LET n == Normal(v)
      l == VNorm(n)
      a == VDot(n, VSub(p, v[1])) // l
      b == VDot(n, VSub(q, v[1])) // l
      x == VAdd(p, VScale(a // (a -- b), VSub(q, p)))
  IN /\ Zero \prec l
     /\ \/ m \preceq a /\ b \preceq RNeg(m) /\ b \prec a
        \/ m \preceq b /\ a \preceq RNeg(m) /\ a \prec b
     /\ Inside_(v, x, m)
Edge(v, k) == << v[k], v[(k % 3) + 1] >>
TriCross_(v, w, m) == \E k \in 1..3 : Pierce_(Edge(v, k)[1], Edge(v, k)[2], w, m) \/ Pierce_(Edge(w, k)[1], Edge(w, k)[2], v, m)
RECURSIVE MinOf_(_)
MinOf_(S) == LET x == CHOOSE x \in S : TRUE IN IF Cardinality(S) = 1 THEN x ELSE RMin(x, MinOf_(S \ {x}))
TriDist_(v, w) ==
  IF TriCross_(v, w, Zero) THEN Zero
  ELSE MinOf_({ SegDist_(Edge(v, i)[1], Edge(v, i)[2], Edge(w, j)[1], Edge(w, j)[2]) : i \in 1..3, j \in 1..3 }
              \cup { PtTriDist_(v[i], w) : i \in 1..3 } \cup { PtTriDist_(w[i], v) : i \in 1..3 })

\* evaluated by the override
SegDist(p, q, r, s) == SegDist_(p, q, r, s)
PtTriDist(x, v)     == PtTriDist_(x, v)
TriDist(v, w)       == TriDist_(v, w)
TriCross(v, w, m)   == TriCross_(v, w, m)

\* the points of a rectangle (corner T, axes the columns of A, sides l) as two triangles
RectTris(A, T, l) ==
  LET c(x, y) == VAdd(T, MulMV(A, << x, y, Zero >>))
  IN << << c(Zero, Zero), c(l[1], Zero), c(l[1], l[2]) >>, << c(Zero, Zero), c(l[1], l[2]), c(Zero, l[2]) >> >>
RectRect(a, b) == RMin(RMin(TriDist(a[1], b[1]), TriDist(a[1], b[2])), RMin(TriDist(a[2], b[1]), TriDist(a[2], b[2])))
=============================================================================
