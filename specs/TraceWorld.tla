----------------------------- MODULE TraceWorld -----------------------------
(***************************************************************************)
(* Conformance of whole queries: managers of placed things, queried with   *)
(* the library's own callbacks.  The state is the world (things, poses)    *)
(* and which manager holds which of them; the answers are judged against   *)
(* all relevant pairs of things, whatever the managers prune.              *)
(***************************************************************************)
EXTENDS Things, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w, reg, know
tvars == << h, i, w, reg, know >>
\* know: a set of pairs of slots (smaller first) -> Facts, for poses that are still current
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >> /\ reg = << {}, {} >> /\ know = << >>

Ordered(p) == IF p[1] <= p[2] THEN p ELSE << p[2], p[1] >>
\* the pairs a query is about
Pairs(e) ==
  LET A == reg[e.m + 1]
      B == reg[2 - e.m]
  IN IF e.what = "self" THEN { << x, y >> : x \in A, y \in A } \ { << x, y >> \in A \X A : y <= x }
     ELSE IF e.what = "obj" THEN { Ordered(<< x, e.s >>) : x \in A \ {e.s} }
     ELSE { Ordered(p) : p \in { q \in A \X B : q[1] # q[2] } }
\* planes and half spaces among themselves: what they cover along the normal, if they are parallel
Far == R(1000000)
Span(b, n) == LET d == WD(b) ** VDot(WN(b), n)
              IN IF b.k = "plane" THEN << d, d >> ELSE IF Zero \prec VDot(WN(b), n) THEN << RNeg(Far), d >> ELSE << d, Far >>
TwoFlat(a, b) ==
  LET n == WN(a)
      s == Span(a, n)
      u == Span(b, n)
      g == RMax(Zero, RMax(s[1] -- u[2], u[1] -- s[2]))
      c == VNorm(VCross(n, WN(b)))
  IN IF RQ(1, 1000) \prec c THEN [lo |-> Zero, hi |-> Zero, hit |-> TRUE, none |-> FALSE]
     ELSE IF c \prec RQ(1, 1000000000) /\ (a.k = "halfspace" \/ b.k = "halfspace") THEN [lo |-> g, hi |-> g, hit |-> RQ(1, 1000) \prec (RMin(s[2], u[2]) -- RMax(s[1], u[1])), none |-> FALSE]
     ELSE [lo |-> Zero, hi |-> Far, hit |-> FALSE, none |-> FALSE]
Flat(x) == x.k = "shape" /\ ~Bounded(x.b)
Unknown(p) == p \notin DOMAIN know
\* a bounded thing comes second in Facts only if the other is not a plane or half space
FactsOf(p) == IF Flat(w[p[1]]) /\ Flat(w[p[2]]) THEN TwoFlat(Part(w[p[1]], 1), Part(w[p[2]], 1))
              ELSE IF Flat(w[p[1]]) THEN Facts(w[p[2]], w[p[1]]) ELSE Facts(w[p[1]], w[p[2]])
Learn(P) == [p \in DOMAIN know \cup P |-> IF Unknown(p) THEN FactsOf(p) ELSE know[p]]

\* tolerance of a pair: the larger of its things' (cells, triangles are parts of them)
RECURSIVE MaxReach(_, _)
MaxReach(x, S) == IF S = {} THEN Zero ELSE LET q == CHOOSE q \in S : TRUE
                                               b == Part(x, q)
                                           IN RMax(IF Bounded(b) THEN Reach(b) ELSE Zero, MaxReach(x, S \ {q}))
TolP(e, p) == (IF e.sv = "i" THEN RQ(1, 10000) ELSE RQ(3, 1000)) ** (RQ(1, 100) ++ RMax(MaxReach(w[p[1]], Nums(w[p[1]])), MaxReach(w[p[2]], Nums(w[p[2]]))))
NameOf(e) == T[h].name \o ":" \o e.what \o "/" \o e.sv
AsBoxes == T[h].asGeo = 0 /\ T[h].kind \in {6, 7}       \* octrees dissolved into boxes that are not objects
Dissolved(e) == AsBoxes /\ e.what = "obj" /\ w[e.s].k = "octree"
Kinds(p) == w[p[1]].name \o "-" \o w[p[2]].name
\* a query that wants costs goes on through all pairs and collects what each of them costs by itself
SameCost(c, o) == \A q \in 1..2 : \A k \in 1..3 : RNear(c[q][k], o[q][k], RQ(1, 1000000) ** (RQ(1, 100) ++ RAbs(o[q][k])))
                  /\ RNear(c[3][1], o[3][1], RQ(1, 1000000) ** (RQ(1, 100) ++ o[3][1]))
Among(c, s) == \E q \in 1..Len(s) : SameCost(c, s[q])
CostsWhy(e, P) ==
  LET S == { e.own[q] : q \in { q \in 1..Len(e.own) : Ordered(<< e.own[q].a, e.own[q].b >>) \in P } }
  IN IF e.cost = 0 THEN (IF e.costs # << >> THEN "cost sources though none were asked for " ELSE "")
     ELSE IF \E q \in 1..Len(e.costs) : \A s \in S : ~Among(e.costs[q], s.ab) /\ ~Among(e.costs[q], s.ba) THEN "a cost source no pair has "
     ELSE IF \E s \in S : \E q \in 1..Len(s.ab) : Among(s.ab[q], s.ba) /\ ~Among(s.ab[q], e.costs) THEN "a pair's cost source is missing "
     ELSE ""
CollideWhy(e, K) ==
  LET P == Pairs(e)
      N == { Ordered(e.ps[q]) : q \in 1..Len(e.ps) }
      Missing == { p \in P : K[p].hit /\ p \notin N }
      Apart == { p \in N \cap P : TolP(e, p) \prec K[p].lo }
  IN IF e.cnt # Len(e.ps) \/ e.copied # e.cnt \/ e.res # (e.cnt > 0) THEN "count, result and contacts disagree "
     ELSE IF e.cnt > e.max THEN "more contacts than asked for "
     ELSE IF e.done # (e.cost = 0 /\ e.cnt >= e.max) THEN "done is not whether all contacts asked for were found "
     ELSE IF ~e.stays THEN "a finished query changed "
     ELSE IF Dissolved(e) THEN
          IF e.res /\ (\A p \in P : TolP(e, p) \prec K[p].lo) THEN "reported a collision of separated objects "
          ELSE IF ~e.res /\ Missing # {} THEN "missed a collision " \o Kinds(CHOOSE p \in Missing : TRUE) ELSE ""
     ELSE IF ~(N \subseteq P) THEN "contact of a pair the query is not about "
     ELSE IF Apart # {} THEN "contact of objects that are apart " \o Kinds(CHOOSE p \in Apart : TRUE)
     ELSE IF e.cnt < e.max /\ Missing # {} THEN "missed a collision " \o Kinds(CHOOSE p \in Missing : TRUE)
     ELSE CostsWhy(e, P)
RECURSIVE MinOver(_, _, _)
MinOver(K, P, hi) == IF P = {} THEN R(1000000) ELSE LET p == CHOOSE p \in P : TRUE IN RMin(IF hi THEN K[p].hi ELSE K[p].lo, MinOver(K, P \ {p}, hi))
DistanceWhy(e, K) ==
  LET P == { p \in Pairs(e) : ~K[p].none }
      lo == MinOver(K, P, FALSE)
      hi == MinOver(K, P, TRUE)
      q == Ordered(<< e.o1, e.o2 >>)
      \* the pair that decides has an accuracy of its own; without a name, that of the roughest
      tol == IF q \in P THEN TolP(e, q) ELSE LET S == { p \in P : K[p].lo \preceq e.min } IN IF S = {} THEN RQ(1, 10000) ELSE RQ(3, 1000) ** R(10)
      big == R(10) ** tol
  IN IF P = {} THEN (IF RFin(e.min) /\ e.min \prec R(1000000) THEN "distance to nothing " ELSE "")
     ELSE IF ~RFin(e.min) THEN "distance is not finite "
     ELSE IF (\E p \in P : K[p].hit) /\ big \prec e.min THEN "positive distance of intersecting objects "
     ELSE IF (hi ++ big) \prec e.min THEN "distance is not the minimum "
     ELSE IF tol \prec lo /\ e.min \prec (lo -- tol) THEN "distance below the minimum "
     ELSE IF Dissolved(e) THEN ""
     ELSE IF q \notin P THEN "result names a pair the query is not about "
     ELSE IF (RMax(e.min, Zero) ++ big) \prec K[q].lo THEN "the named pair is not nearest " \o Kinds(q)
     ELSE IF e.np = 1 /\ tol \prec e.min /\ ~RNear(VDist(e.p1, e.p2), e.min, big) THEN "nearest points are not that far apart " \o Kinds(q)
     ELSE ""
Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
Query(e) == e.op \in {"collide", "distance"}
Why(e, K) == CASE Fatal(e) -> e.op
               [] e.op = "collide" -> CollideWhy(e, K)
               [] e.op = "distance" -> DistanceWhy(e, K)
               [] OTHER -> ""
Put(s, x) == w' = [q \in DOMAIN w \cup {s} |-> IF q = s THEN x ELSE w[q]]
Forget(s) == know' = [p \in { p \in DOMAIN know : s \notin {p[1], p[2]} } |-> know[p]]
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         K == IF Query(e) THEN Learn(Pairs(e)) ELSE know
         y == Why(e, K)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y \o (IF Query(e) THEN NameOf(e) ELSE "") >>) ELSE TRUE
        /\ CASE e.op \in {"octree", "mesh", "shape"} -> Put(e.s, Thing(e)) /\ Forget(e.s) /\ UNCHANGED reg
             [] e.op = "pose" -> Put(e.s, [w[e.s] EXCEPT !.R = e.R, !.t0 = e.t]) /\ Forget(e.s) /\ UNCHANGED reg
             [] e.op = "reg" -> reg' = [reg EXCEPT ![e.m + 1] = @ \cup {e.s}] /\ UNCHANGED << w, know >>
             [] e.op = "unreg" -> reg' = [reg EXCEPT ![e.m + 1] = @ \ {e.s}] /\ UNCHANGED << w, know >>
             [] OTHER -> know' = K /\ UNCHANGED << w, reg >>
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
