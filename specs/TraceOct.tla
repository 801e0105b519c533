------------------------------ MODULE TraceOct ------------------------------
(***************************************************************************)
(* Conformance of octrees: collision and distance queries of an octree     *)
(* (slot 0) with a shape, a mesh or another octree (slot 1), in either     *)
(* order, and what an octree says about itself.                            *)
(***************************************************************************)
EXTENDS Things, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w, know, acc
tvars == << h, i, w, know, acc >>

NoKnow == [done |-> FALSE, f |-> NoFacts]
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >> /\ know = NoKnow /\ acc = [n |-> 0, bad |-> 0, cn |-> 0, cbad |-> 0]

Know == IF know.done THEN know ELSE [done |-> TRUE, f |-> Facts(w[0], w[1])]

Pair(e) == w[0].name \o "-" \o w[1].name \o "/" \o e.sv
\* the two parts a result names, in the order (slot 0, slot 1), or <<0, 0>>
Named(e, c) == IF c.o1 = 0 /\ c.o2 = 1 THEN << NumOf(w[0], c.c1), NumOf(w[1], c.c2) >>
               ELSE IF c.o1 = 1 /\ c.o2 = 0 THEN << NumOf(w[0], c.c2), NumOf(w[1], c.c1) >> ELSE << 0, 0 >>
ExactPair(a, b) == ~Bounded(b) \/ (a.k = "box" /\ b.k = "sphere") \/ (a.k = "box" /\ b.k = "box")
Tol(e, a, b) == (IF ~Bounded(b) \/ (a.k = "box" /\ b.k = "sphere") THEN RQ(1, 100000) ELSE IF e.sv = "i" THEN RQ(1, 10000) ELSE RQ(3, 1000)) ** Scale2(a, b)
\* ------------------------------------------------------------------ collide
Along(n, m) == RNear(VDot(n, m), One, RQ(1, 10000))
InfX(b, n) == IF Bounded(b) THEN Inf(b, n) ELSE WD(b) ** VDot(n, WN(b))
DirOK(b, n) == Bounded(b) \/ Along(n, VNeg(WN(b))) \/ (b.k = "plane" /\ Along(n, WN(b)))
MinSize(a, b) == IF ~Bounded(b) THEN Size(a) ELSE RMin(Size(a), Size(b))
ContactWhy(e, c) ==
  LET q == Named(e, c)
      a == Part(w[0], q[1])
      b == Part(w[1], q[2])
      n == IF c.o1 = 0 THEN c.n ELSE VNeg(c.n)
      tol == Tol(e, a, b)
      ov == Sup(a, n) -- InfX(b, n)
      m == c.d ++ tol
      x == IF a.k = "box" /\ b.k = "box" THEN m ++ Half(MinSize(a, b))
           ELSE IF ExactPair(a, b) THEN m ELSE m ++ (IF e.sv = "i" THEN Size(a) ++ Reach(b) ELSE Zero)
  IN IF ~(VFin(c.n) /\ VFin(c.p) /\ RFin(c.d)) THEN "contact is not finite "
     ELSE IF VNorm(c.n) = Zero THEN (IF c.d \preceq tol THEN "" ELSE "contact normal is zero ")
     ELSE IF ~RNear(VNorm(c.n), One, RQ(1, 10000)) THEN "contact normal is not a unit vector "
     ELSE IF c.d \prec RNeg(tol) THEN "negative penetration depth "
     ELSE IF ~DirOK(b, n) THEN "contact normal is not the normal of the surface "
     ELSE IF (ov ++ tol) \prec c.d THEN "depth exceeds the overlap along the normal "
     ELSE IF ExactPair(a, b) /\ b.k # "box" /\ (c.d ++ tol) \prec ov THEN "moving apart by the depth does not separate "
     ELSE IF ~(In(a, c.p, x) /\ In(b, c.p, x)) THEN "contact position away from the bodies "
     ELSE ""
RECURSIVE FirstWhy(_)
FirstWhy(s) == IF s = << >> THEN "" ELSE IF s[1] # "" THEN s[1] ELSE FirstWhy(Tail(s))
CollideWhy(e, K) ==
  LET cs == e.cs
      S == Nums(w[0]) \X Nums(w[1])
      N == { Named(e, cs[q]) : q \in 1..Len(cs) }
      tol(x) == Tol(e, Part(w[0], x[1]), Part(w[1], x[2]))
      single == e.con = 0 \/ w[1].k = "mesh"
  IN IF e.ret # Len(cs) \/ e.res # (Len(cs) > 0) THEN "count, result and contacts disagree "
     ELSE IF Len(cs) > e.max THEN "more contacts than asked for "
     ELSE IF ~(N \subseteq S) THEN "contact names other objects, or a cell that is not occupied "
     ELSE IF single /\ Cardinality(N) # Len(cs) THEN "pair reported repeatedly "
     ELSE IF \E x \in N : tol(x) \prec K.t[x].lo THEN "contact of parts that are apart "
     ELSE IF Len(cs) < e.max /\ (\E x \in S : K.t[x].hit /\ x \notin N) THEN "parts in collision not reported "
     ELSE IF e.con = 1 THEN FirstWhy([q \in 1..Len(cs) |-> ContactWhy(e, cs[q])])
     ELSE ""
\* ------------------------------------------------------------------ distance
Loose(e, a, b) == (IF a.k = "box" /\ b.k = "sphere" THEN One ELSE R(10)) ** Tol(e, a, b)
DistanceWhy(e, K) ==
  LET q == Named(e, e)
      S == Nums(w[0]) \X Nums(w[1])
      a == Part(w[0], q[1])
      b == Part(w[1], q[2])
      tol == Tol(e, a, b)
      big == Loose(e, a, b)
      pa == IF e.o1 = 0 THEN e.p1 ELSE e.p2
      pb == IF e.o1 = 0 THEN e.p2 ELSE e.p1
  IN IF e.ret # e.min THEN "returned distance differs from the result "
     ELSE IF K.none THEN (IF RFin(e.ret) /\ e.ret \prec R(1000000) THEN "distance to nothing " ELSE "")
     ELSE IF ~RFin(e.ret) THEN "distance is not finite "
     ELSE IF q \notin S THEN "result names other objects, or a cell that is not occupied "
     ELSE IF K.hit /\ tol \prec e.ret THEN "positive distance of intersecting bodies "
     ELSE IF (K.hi ++ big) \prec e.ret THEN "distance is not the minimum "
     ELSE IF tol \prec K.lo /\ e.ret \prec (K.lo -- tol) THEN "distance below the minimum "
     ELSE IF (RMax(e.ret, Zero) ++ big) \prec K.t[q].lo THEN "the named pair is not nearest "
     ELSE IF tol \prec e.ret /\ e.np = 1 THEN
          IF ~(VFin(e.p1) /\ VFin(e.p2)) THEN "nearest points are not finite "
          ELSE IF ~In(a, pa, tol) THEN "nearest point is not on its cell "
          ELSE IF ~In(b, pb, tol) THEN "nearest point is not on its part "
          ELSE IF ~RNear(VDist(e.p1, e.p2), e.ret, big) THEN "nearest points are not that far apart "
          ELSE IF \E x \in {<< e.o1, e.c1, e.g1 >>, << e.o2, e.c2, e.g2 >>} : w[x[1]].k = "octree" /\ x[2] # x[3] THEN "cell not found again from its id and the nearest point "
          ELSE ""
     ELSE ""
Inaccurate(e, K) ==
  LET q == Named(e, e)
      tol == Tol(e, Part(w[0], q[1]), Part(w[1], q[2]))
  IN ~K.none /\ tol \prec e.ret /\ \/ (K.hi ++ tol) \prec e.ret
                                   \/ e.np = 1 /\ ~RNear(VDist(e.p1, e.p2), e.ret, tol)
\* ------------------------------------------------------------------ what an octree says about itself
Same(a, b) == VNear(a, b, RQ(1, 1000000))
InspectWhy(e) ==
  LET x == w[e.s]
      N == 1..Len(x.cells)
      O == { q \in N : Occupied(x, x.cells[q]) }
      In3(a, lo, hi) == \A q \in 1..3 : lo[q] \preceq a[q] /\ a[q] \preceq hi[q]
      Cell(b) == { q \in N : Same(VScale(HalfOf(One), VAdd(x.cells[q].lo, x.cells[q].hi)), b.c) }
  IN IF ~e.type THEN "does not call itself an octree "
     ELSE IF Len(e.flags) # Len(x.cells) THEN "number of leaves changed "
     ELSE IF \E q \in N : e.flags[q].occ # Occupied(x, x.cells[q]) THEN "occupied cells misjudged "
     ELSE IF \E q \in N : e.flags[q].free # Free(x, x.cells[q]) THEN "free cells misjudged "
     ELSE IF \E q \in N : e.flags[q].unc # (~Occupied(x, x.cells[q]) /\ ~Free(x, x.cells[q])) THEN "uncertain cells misjudged "
     ELSE IF { e.walk[q].leaf + 1 : q \in 1..Len(e.walk) } # N \/ Len(e.walk) # Len(x.cells) THEN "children do not lead to every leaf once "
     ELSE IF \E q \in 1..Len(e.walk) : LET c == x.cells[e.walk[q].leaf + 1] IN ~(Same(c.lo, e.walk[q].lo) /\ Same(c.hi, e.walk[q].hi)) THEN "box of a child is not its cell "
     ELSE IF Len(e.boxes) # Cardinality(O) THEN "number of boxes is not that of occupied cells "
     ELSE IF UNION { Cell(e.boxes[q]) : q \in 1..Len(e.boxes) } # O THEN "boxes are not the occupied cells "
     ELSE IF \E q \in 1..Len(e.boxes) : \E k \in Cell(e.boxes[q]) : ~RNear(e.boxes[q].size, x.cells[k].hi[1] -- x.cells[k].lo[1], RQ(1, 1000000)) \/ ~RNear(e.boxes[q].occ, x.cells[k].pr, RQ(1, 1000000)) THEN "size or occupancy of a box "
     ELSE IF \E q \in N : ~(In3(x.cells[q].lo, e.rlo, e.rhi) /\ In3(x.cells[q].hi, e.rlo, e.rhi)) THEN "root box does not contain a cell "
     ELSE IF \E q \in N : ~(In3(x.cells[q].lo, e.llo, e.lhi) /\ In3(x.cells[q].hi, e.llo, e.lhi)) THEN "local box does not contain a cell "
     ELSE IF \E q \in N : (e.lr ++ RQ(1, 1000000)) \prec RMax(VDist(x.cells[q].lo, e.lc), VDist(x.cells[q].hi, e.lc)) THEN "radius does not reach a cell "
     ELSE ""
LookupWhy(e) == IF w[e.s].cells = << >> THEN (IF e.got = -1 THEN "" ELSE "found a cell in an empty tree ") ELSE
  LET c == w[e.s].cells[e.leaf + 1]
  IN IF e.got # e.leaf \/ ~e.same THEN "cell not found from its id and a point in it "
     ELSE IF ~(Same(c.lo, e.lo) /\ Same(c.hi, e.hi)) THEN "box of the cell found "
     ELSE IF ~e.depth THEN "depth of the cell found " ELSE ""
ThrWhy(e) == IF (Zero \prec e.occ /\ ~RNear(e.occ, e.gocc, RQ(1, 100000))) \/ (Zero \prec e.free /\ ~RNear(e.free, e.gfree, RQ(1, 100000))) THEN "threshold read is not the one set " ELSE ""

Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
Query(e) == e.op \in {"collide", "distance"}
Why(e, KK) == LET K == KK.f IN CASE Fatal(e) -> e.op
               [] e.op = "collide" -> CollideWhy(e, K)
               [] e.op = "distance" -> DistanceWhy(e, K)
               [] e.op = "inspect" -> InspectWhy(e)
               [] e.op = "lookup" -> LookupWhy(e)
               [] e.op = "thr" -> ThrWhy(e)
               [] e.op = "tally" -> IF acc.bad * 5 > acc.n + 10 THEN "too many inaccurate answers " ELSE ""
               [] OTHER -> ""
Put(s, x) == w' = [q \in DOMAIN w \cup {s} |-> IF q = s THEN x ELSE w[q]]
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         K == IF Query(e) THEN Know ELSE know
         y == Why(e, K)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y \o (IF Query(e) THEN Pair(e) ELSE "") >>) ELSE TRUE
        /\ CASE e.op \in {"octree", "mesh", "shape"} -> Put(e.s, Thing(e)) /\ know' = NoKnow
             [] e.op = "pose" -> Put(e.s, [w[e.s] EXCEPT !.R = e.R, !.t0 = e.t]) /\ know' = NoKnow
             [] e.op = "thr" -> Put(e.s, [w[e.s] EXCEPT !.occ = IF Zero \prec e.occ THEN e.occ ELSE @, !.free = IF Zero \prec e.free THEN e.free ELSE @]) /\ know' = NoKnow
             [] OTHER -> know' = K /\ UNCHANGED w
        /\ acc' = IF e.op = "tally" THEN [n |-> 0, bad |-> 0, cn |-> 0, cbad |-> 0]
                  ELSE IF e.op = "distance" /\ y = "" THEN [acc EXCEPT !.n = @ + 1, !.bad = @ + (IF Inaccurate(e, K.f) THEN 1 ELSE 0)]
                  ELSE acc
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
