------------------------------ MODULE TraceReq ------------------------------
(***************************************************************************)
(* Conformance of requests and results.  The state is a small world of     *)
(* things (with densities and thresholds) and what one collision result    *)
(* and one distance result have collected so far; every call may only add  *)
(* what it found, within its limits.                                       *)
(***************************************************************************)
EXTENDS Things, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w, know, res, dst
tvars == << h, i, w, know, res, dst >>
Huge == R(1000000000)
NoDist == [min |-> << >>, o1 |-> -1, o2 |-> -1]
NoRes == [cs |-> << >>, costs |-> << >>]
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >> /\ know = << >> /\ res = NoRes /\ dst = NoDist

Ordered(p) == IF p[1] <= p[2] THEN p ELSE << p[2], p[1] >>
Solid(x) == x.k = "octree" \/ x.thr[2] \preceq x.thr[1]
Void(x) == x.k # "octree" /\ x.thr[1] \preceq x.thr[3]
Name(e) == w[e.a].name \o "-" \o w[e.b].name \o "/" \o e.sv
IsNum(r, id, x) == NumOf(x, id) \in Nums(x)
\* the facts of a call, in the order smaller slot first
FactsOf(p) == Facts(w[p[1]], w[p[2]])
TolParts(e, a, b) == (IF e.sv = "i" THEN RQ(1, 10000) ELSE RQ(3, 1000)) ** Scale2(a, b) ** (IF e.tol < 6 THEN R(10) ELSE One)

\* ------------------------------------------------------------------ contacts
\* a contact << o1, o2, c1, c2 >> as << part of p[1], part of p[2] >>
NamedBy(p, c) == IF c[1] = p[1] /\ c[2] = p[2] THEN << NumOf(w[p[1]], c[3]), NumOf(w[p[2]], c[4]) >>
                 ELSE IF c[1] = p[2] /\ c[2] = p[1] THEN << NumOf(w[p[1]], c[4]), NumOf(w[p[2]], c[3]) >> ELSE << 0, 0 >>
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], MinSeq(Tail(s)))
Above(s, m) == Cardinality({ q \in 1..Len(s) : m \prec s[q] })
DepthsWhy(e) ==
  IF e.full = << >> \/ e.dp = << >> THEN ""
  ELSE LET eps == RQ(1, 1000000)
           m == MinSeq(e.dp)
       IN IF \E q \in 1..Len(e.dp) : \A s \in 1..Len(e.full) : ~RNear(e.dp[q], e.full[s], eps) THEN "contact of another depth than without a limit "
          ELSE IF Above(e.dp, m ++ eps) # Above(e.full, m ++ eps) THEN "a deeper contact was left out "
          ELSE ""
ContactsWhy(e, K) ==
  LET p == Ordered(<< e.a, e.b >>)
      n0 == Len(res.cs)
      n1 == Len(e.cs)
      new == SubSeq(e.cs, n0 + 1, n1)
      N == { NamedBy(p, new[q]) : q \in 1..Len(new) }
      sat0 == e.cost = 0 /\ n0 > 0 /\ e.max <= n0
      sat1 == e.cost = 0 /\ n1 > 0 /\ e.max <= n1
      t(x) == IF x \in DOMAIN K.t THEN K.t[x] ELSE [lo |-> Huge, hi |-> Huge, hit |-> FALSE]
  IN IF ~e.kept \/ n1 < n0 \/ SubSeq(e.cs, 1, n0) # res.cs THEN "earlier contacts changed "
     ELSE IF e.sat0 # sat0 \/ e.sat # sat1 THEN "satisfied is not whether the contacts asked for are there "
     ELSE IF e.max = 0 THEN (IF e.ret # 0 \/ n1 # n0 THEN "contacts though none were asked for " ELSE "")
     ELSE IF e.ret # n1 \/ e.res # (n1 > 0) THEN "count, result and contacts disagree "
     ELSE IF n1 > n0 /\ n1 > e.max THEN "more contacts than asked for "
     ELSE IF n1 > n0 /\ ~(Solid(w[e.a]) /\ Solid(w[e.b])) THEN "contact of an object that is not occupied "
     ELSE IF ~(N \subseteq Nums(w[p[1]]) \X Nums(w[p[2]])) THEN "contact names another object or part "
     ELSE IF \E x \in N : TolParts(e, Part(w[p[1]], x[1]), Part(w[p[2]], x[2])) \prec t(x).lo THEN "contact of parts that are apart "
     ELSE IF Solid(w[e.a]) /\ Solid(w[e.b]) /\ n1 < e.max /\ (\E x \in DOMAIN K.t : K.t[x].hit /\ x \notin N) THEN "missed a collision "
     ELSE IF e.full # << >> /\ Solid(w[e.a]) /\ Solid(w[e.b]) /\ Len(e.dp) # (IF e.max <= n0 THEN 0 ELSE IF e.max - n0 < Len(e.full) THEN e.max - n0 ELSE Len(e.full)) THEN "fewer contacts than fit "
     ELSE DepthsWhy(e)

\* ------------------------------------------------------------------ costs
AbsM(M) == [r \in 1..3 |-> [c \in 1..3 |-> RAbs(M[r][c])]]
AabbBox(x, lo, hi) == LET c == VAdd(MulMV(x.R, VScale(HalfOf(One), VAdd(lo, hi))), x.t0)
                          d == MulMV(AbsM(x.R), VScale(HalfOf(One), VSub(hi, lo)))
                      IN << VSub(c, d), VAdd(c, d) >>
Min3(v, k) == RMin(v[1][k], RMin(v[2][k], v[3][k]))
Max3(v, k) == RMax(v[1][k], RMax(v[2][k], v[3][k]))
AabbTri(v) == << [k \in 1..3 |-> Min3(v, k)], [k \in 1..3 |-> Max3(v, k)] >>
CellPart(x, c) == [k |-> "box", p |-> VSub(c.hi, c.lo), v |-> << >>, f |-> << >>, R |-> x.R, t0 |-> VAdd(MulMV(x.R, VScale(HalfOf(One), VAdd(c.lo, c.hi))), x.t0)]
Same(x, y) == RNear(x, y, RQ(1, 1000000) ** (RQ(1, 100) ++ RAbs(x)))
\* a part that can cost: box around it, weight
CellCost(x, c, wt) == [on |-> ~Free(x, c), box |-> AabbBox(x, c.lo, c.hi), wt |-> wt, b |-> CellPart(x, c)]
PartCost(x, box, whole, q) ==
  IF x.k = "octree" THEN CellCost(x, x.cells[q], x.cells[q].pr)
  ELSE IF x.k = "mesh" /\ ~whole THEN LET b == Part(x, q) IN [on |-> ~Void(x), box |-> AabbTri(b.v), wt |-> x.thr[1], b |-> b]
  ELSE [on |-> ~Void(x), box |-> box, wt |-> x.thr[1], b |-> IF x.k = "mesh" THEN << >> ELSE Part(x, 1)]
\* the cells whose box may contain a point at p (in the octree's frame)
Near(cells, p) == { q \in 1..Len(cells) : \A k \in 1..3 : LET s == cells[q].hi[k] -- cells[q].lo[k] IN (cells[q].lo[k] -- s) \preceq p[k] /\ p[k] \preceq (cells[q].hi[k] ++ s) }
\* the parts of a thing that can be what a cost source c comes from
Sources(x, box, whole, c) ==
  IF x.k = "octree" THEN
    LET p == MulMTV(x.R, VSub(VScale(HalfOf(One), VAdd(c.lo, c.hi)), x.t0))
    IN { CellCost(x, x.cells[q], x.cells[q].pr) : q \in Near(x.cells, p) } \cup { CellCost(x, x.unk[q], x.occ) : q \in Near(x.unk, p) }
  ELSE { z \in { PartCost(x, box, whole, q) : q \in IF x.k = "mesh" /\ ~whole THEN 1..Len(x.t) ELSE {1} } : \A k \in 1..3 : (Same(z.box[1][k], c.lo[k]) \/ z.box[1][k] \preceq c.lo[k]) /\ (Same(z.box[2][k], c.hi[k]) \/ c.hi[k] \preceq z.box[2][k]) }
Overlap2(p, q) == << [k \in 1..3 |-> RMax(p[1][k], q[1][k])], [k \in 1..3 |-> RMin(p[2][k], q[2][k])] >>
SameBox(c, o) == \A k \in 1..3 : Same(c.lo[k], o[1][k]) /\ Same(c.hi[k], o[2][k])
Volume(o) == (o[2][1] -- o[1][1]) ** (o[2][2] -- o[1][2]) ** (o[2][3] -- o[1][3])
CostWhy(e, K) ==
  LET p == Ordered(<< e.a, e.b >>)
      x == w[p[1]]
      y == w[p[2]]
      swap == p[1] # e.a
      whole == e.ap = 1 /\ ~(x.k = "mesh" /\ y.k = "mesh")
      boxX == IF swap THEN << e.ab[3], e.ab[4] >> ELSE << e.ab[1], e.ab[2] >>
      boxY == IF swap THEN << e.ab[1], e.ab[2] >> ELSE << e.ab[3], e.ab[4] >>
      trees == x.k = "octree" /\ y.k = "octree"
      C == e.costs
      n == Len(C)
      Fits(c, a, b) ==      \* the source is what these two parts share
        /\ SameBox(c, Overlap2(a.box, b.box))
        /\ (RNear(c.den, a.wt ** b.wt, RQ(1, 1000000)) \/ (trees /\ RNear(c.den, x.occ ** y.occ, RQ(1, 1000000))))
      Apart(a, b) == ~((x.k = "mesh" \/ y.k = "mesh") /\ whole) /\
                     LET s == IF Bounded(a.b) THEN TwoParts(a.b, b.b) ELSE TwoParts(b.b, a.b)
                     IN TolParts(e, a.b, b.b) \prec s.lo
      Old(c) == \E q \in 1..Len(res.costs) : res.costs[q] = c
      Explained(c) == LET X == Sources(x, boxX, whole, c)
                          Y == Sources(y, boxY, whole, c)
                      IN \E a \in X : a.on /\ \E b \in Y : b.on /\ Fits(c, a, b) /\ ~Apart(a, b)
      Num(z, q) == IF z.k = "mesh" /\ whole THEN 1 ELSE q
      Must == IF Void(x) \/ Void(y) THEN {} ELSE { << Num(x, q[1]), Num(y, q[2]) >> : q \in { r \in DOMAIN K.t : K.t[r].hit } }
      Due(a, b) == LET o == Overlap2(a.box, b.box)
                       tot == a.wt ** b.wt ** Volume(o)
                   IN \/ \E q \in 1..n : SameBox(C[q], o) /\ RNear(C[q].den, a.wt ** b.wt, RQ(1, 1000000))
                      \/ n >= e.nc /\ (n = 0 \/ tot \preceq (C[n].tot ++ (RQ(1, 1000000) ** (RQ(1, 1000000) ++ RAbs(tot)))))
  IN IF e.cost = 0 \/ e.max = 0 THEN (IF C # res.costs THEN "cost sources though none were asked for " ELSE "")
     ELSE IF C # res.costs /\ n > e.nc THEN "more cost sources than asked for "
     ELSE IF \E q \in 1..(n - 1) : C[q].tot \prec C[q + 1].tot THEN "cost sources out of order "
     ELSE IF \E q \in 1..n : ~RNear(C[q].tot, C[q].den ** Volume(<< C[q].lo, C[q].hi >>), RQ(1, 1000000) ** (RQ(1, 1000000) ++ RAbs(C[q].tot))) THEN "total cost is not density times volume "
     ELSE IF \E q \in 1..n : ~Old(C[q]) /\ ~Explained(C[q]) THEN "cost source that no two intersecting parts share " 
     ELSE IF \E q \in 1..Len(res.costs) : (\A s \in 1..n : C[s] # res.costs[q]) /\ (n < e.nc \/ n = 0 \/ C[n].tot \prec res.costs[q].tot) THEN "a larger earlier cost source was lost "
     ELSE IF \E q \in Must : ~Due(PartCost(x, boxX, whole, q[1]), PartCost(y, boxY, whole, q[2])) THEN "cost source missing "
     ELSE ""
CollideWhy(e, K) == LET y == ContactsWhy(e, K) IN IF y # "" THEN y ELSE CostWhy(e, K)

\* ------------------------------------------------------------------ distance
DistanceWhy(e, K) ==
  LET p == Ordered(<< e.a, e.b >>)
      first == dst.min = << >>
      old == IF first THEN Huge ELSE dst.min
      same == ~first /\ e.min = dst.min /\ e.o1 = dst.o1 /\ e.o2 = dst.o2
      \* the result can only hold what was found for this pair or what it held
      mine == Ordered(<< e.o1, e.o2 >>) = p
      q == IF mine THEN NamedBy(p, << e.o1, e.o2, e.c1, e.c2 >>) ELSE << 0, 0 >>
      named == q \in DOMAIN K.t
      tol == IF named THEN TolParts(e, Part(w[p[1]], q[1]), Part(w[p[2]], q[2])) ELSE RQ(3, 100)
      rough == IF K.none THEN Zero ELSE R(10) ** RQ(3, 1000) ** R(10)
      big == R(10) ** tol
  IN IF e.sat0 # (~first /\ dst.min \preceq Zero) \/ e.sat # (e.min \preceq Zero) THEN "satisfied is not whether the distance is zero "
     ELSE IF e.ret # e.min THEN "returned and minimum distance differ "
     ELSE IF e.how # 2 /\ ~first /\ dst.min \preceq Zero THEN (IF same THEN "" ELSE "a satisfied result changed ")
     ELSE IF K.none THEN (IF first THEN (IF e.min \prec Huge THEN "distance to nothing " ELSE "") ELSE IF same THEN "" ELSE "distance to nothing ")
     ELSE IF same THEN (IF (K.hi ++ rough) \prec e.min \/ (K.hit /\ rough \prec e.min) THEN "a smaller distance was not taken " ELSE "")
     ELSE IF ~(e.min \prec old) THEN "the distance grew "
     ELSE IF ~named THEN "result names another object or part "
     ELSE IF K.hit THEN (IF big \prec e.min THEN "positive distance of intersecting objects " ELSE "")
     ELSE IF (K.hi ++ big) \prec e.min THEN "distance is not the minimum "
     ELSE IF tol \prec K.lo /\ e.min \prec (K.lo -- tol) THEN "distance below the minimum "
     ELSE IF (RMax(e.min, Zero) ++ big) \prec K.t[q].lo THEN "the named parts are not nearest "
     ELSE IF e.np = 1 /\ tol \prec e.min /\ ~RNear(VDist(e.p1, e.p2), e.min, big) THEN "nearest points are not that far apart "
     ELSE ""
Flags(e) == IF e.isOcc # (e.occ \preceq e.cd) \/ e.isFree # (e.cd \preceq e.free) \/ e.isUnc # (~e.isOcc /\ ~e.isFree) THEN "occupied, free or uncertain is wrong " ELSE ""
Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
Query(e) == e.op \in {"collide", "distance"}
Why(e, K) == CASE Fatal(e) -> e.op
               [] e.op = "collide" -> CollideWhy(e, K)
               [] e.op = "distance" -> DistanceWhy(e, K)
               [] e.op = "cost" -> Flags(e)
               [] e.op = "clear" -> IF e.res \/ e.cnt # 0 \/ e.costs # 0 \/ e.min \prec Huge THEN "a cleared result is not empty " ELSE ""
               [] OTHER -> ""
Put(s, x) == w' = [q \in DOMAIN w \cup {s} |-> IF q = s THEN x ELSE w[q]]
Forget(s) == know' = [p \in { p \in DOMAIN know : s \notin {p[1], p[2]} } |-> know[p]]
New(e) == LET x == Thing(e) IN [f \in DOMAIN x \cup {"thr", "unk"} |-> IF f = "thr" THEN << One, One, Zero >> ELSE IF f = "unk" THEN e.unk ELSE x[f]]
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         p == Ordered(<< e.a, e.b >>)
         K == IF Query(e) THEN (IF p \in DOMAIN know THEN know[p] ELSE FactsOf(p)) ELSE NoFacts
         y == Why(e, K)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y \o (IF Query(e) THEN Name(e) ELSE "") >>) ELSE TRUE
        /\ IF Query(e) THEN know' = [q \in DOMAIN know \cup {p} |-> IF q = p THEN K ELSE know[q]] ELSE IF e.op \in {"octree", "mesh", "shape", "pose", "thr"} THEN Forget(e.s) ELSE UNCHANGED know
        /\ CASE e.op \in {"octree", "mesh", "shape"} -> Put(e.s, New(e)) /\ UNCHANGED << res, dst >>
             [] e.op = "pose" -> Put(e.s, [w[e.s] EXCEPT !.R = e.R, !.t0 = e.t]) /\ UNCHANGED << res, dst >>
             [] e.op = "cost" -> Put(e.s, [w[e.s] EXCEPT !.thr = << e.cd, e.occ, e.free >>]) /\ UNCHANGED << res, dst >>
             [] e.op = "thr" -> Put(e.s, [w[e.s] EXCEPT !.occ = e.occ, !.free = e.free]) /\ UNCHANGED << res, dst >>
             [] e.op = "clear" -> res' = NoRes /\ dst' = NoDist /\ UNCHANGED w
             [] e.op = "collide" -> res' = [cs |-> e.cs, costs |-> e.costs] /\ UNCHANGED << w, dst >>
             [] e.op = "distance" -> dst' = (IF e.o1 = -1 THEN NoDist ELSE [min |-> e.min, o1 |-> e.o1, o2 |-> e.o2]) /\ UNCHANGED << w, res >>
             [] OTHER -> UNCHANGED << w, res, dst >>
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
