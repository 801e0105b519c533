------------------------------ MODULE TraceGeo ------------------------------
(***************************************************************************)
(* Conformance of recorded narrowphase histories.  The state is the world  *)
(* (bodies and their poses) and what is known about the pair of bodies 0   *)
(* and 1; every collision and distance response is judged against both,    *)
(* and may add certified knowledge.                                        *)
(***************************************************************************)
EXTENDS Geo, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS Focus        \* which responses are judged: a set of "collide", "contact", "distance", "signed"

VARIABLES h, i, w, know, acc
tvars == << h, i, w, know, acc >>

\* lo: the distance is at least this;  hit: the bodies meet, robustly;
\* d: a distance, or minus the length of a separating translation, that was constructed;
\* deep: both bodies contain some ball of this radius
NoKnow == [lo |-> Minus1e9, hit |-> FALSE, d |-> Minus1e9, deep |-> Zero, done |-> FALSE]
TInit == h \in 1..Len(T) /\ i = 1 /\ w = << >> /\ know = NoKnow /\ acc = [n |-> 0, bad |-> 0, ref |-> 0]

\* the radius of some ball around x inside both bodies, out of a few
Depth(a, b, x) == LET S == RMin(Size(a), Size(b))
                      Q == {k \in {2, 5, 10, 20, 40, 100, 300} : LET r == S // R(k) IN In(a, x, RNeg(r)) /\ In(b, x, RNeg(r))}
                  IN IF Q = {} \/ ~Bounded(a) \/ ~Bounded(b) THEN Zero ELSE S // R(CHOOSE k \in Q : \A l \in Q : k <= l)
IdM == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1) >>
Scale(e) == RQ(1, 10) ++ RMax(Size(w[e.a]), Size(w[e.b]))
\* pairs computed in closed form; the others are iterative, and libccd's
\* iterations may stall at a relative error of about 1e-3
Closed == { {"sphere"}, {"box"}, {"sphere", "capsule"}, {"sphere", "box"}, {"sphere", "cylinder"} }
IsClosed(a, b) == {a.k, b.k} \in Closed \/ ~Bounded(a) \/ ~Bounded(b)
Tol(e) == (IF e.sv = "i" \/ IsClosed(w[e.a], w[e.b]) THEN RQ(1, 10000) ELSE RQ(3, 1000)) ** Scale(e)

\* what the specification itself knows about the pair, computed when first needed
Know == IF know.done \/ 0 \notin DOMAIN w \/ 1 \notin DOMAIN w THEN know
        ELSE LET m == RQ(1, 1000) ** (One ++ RMax(Size(w[0]), Size(w[1])))
                 r == Decide(w[0], w[1], m)
             IN [know EXCEPT !.done = TRUE, !.lo = RMax(@, r.lo), !.hit = @ \/ r.hit, !.deep = IF r.lo \prec Zero THEN Depth(w[0], w[1], r.x) ELSE Zero]

Pair(e) == w[e.a].k \o "-" \o w[e.b].k \o "/" \o e.sv
Flip(e) == e.a = 1
\* ------------------------------------------------------------------ collide
\* the overlap of a and b along the unit direction n (from a to b): moving b by
\* it along n separates them.  Unbounded bodies overlap any body finitely only
\* along their own normal.
Along(n, m) == RNear(VDot(n, m), One, RQ(1, 10000))
HalfDirOK(b, n) == Along(n, WN(b)) \/ (b.k = "plane" /\ Along(n, VNeg(WN(b))))
SupX(b, n) == IF Bounded(b) THEN Sup(b, n) ELSE WD(b) ** VDot(n, WN(b))
InfX(b, n) == IF Bounded(b) THEN Inf(b, n) ELSE WD(b) ** VDot(n, WN(b))
DirOK(a, b, n) == /\ (Bounded(a) \/ HalfDirOK(a, n))
                  /\ (Bounded(b) \/ HalfDirOK(b, VNeg(n)))
\* the length by which the pair can be separated at most
MinSize(a, b) == IF ~Bounded(a) THEN Size(b) ELSE IF ~Bounded(b) THEN Size(a) ELSE RMin(Size(a), Size(b))
Pivot(b) == IF b.k = "convex" THEN Center(b) ELSE b.t0
ContactWhy(e, c, K) ==
  LET a == w[e.a]
      b == w[e.b]
      tol == Tol(e)
      ov == SupX(a, c.n) -- InfX(b, c.n)
      zero == VNorm(c.n) = Zero
  IN IF ~(VFin(c.n) /\ VFin(c.p) /\ RFin(c.d)) THEN "contact is not finite " \o Pair(e)
     ELSE IF zero THEN
          \* no direction is known when the bodies merely touch or are concentric balls
          IF c.d \preceq tol \/ ({a.k, b.k} = {"sphere"} /\ VDist(a.t0, b.t0) \preceq tol) THEN ""
          ELSE "contact normal is zero " \o Pair(e)
     ELSE IF ~RNear(VNorm(c.n), One, RQ(1, 10000)) THEN "contact normal is not a unit vector " \o Pair(e)
     ELSE IF c.d \prec RNeg(tol) THEN "negative penetration depth " \o Pair(e)
     ELSE IF ~DirOK(a, b, c.n) THEN "contact normal is not the normal of the surface " \o Pair(e)
     ELSE IF (ov ++ tol) \prec c.d THEN "depth exceeds the overlap along the normal " \o Pair(e)
     ELSE IF IsClosed(a, b) /\ ~(LET q == VDot(c.n, c.p) IN (InfX(b, c.n) -- tol) \preceq q /\ q \preceq (SupX(a, c.n) ++ tol)) THEN "contact position not between the surfaces " \o Pair(e)
     ELSE IF IsClosed(a, b) /\ ~(LET m == (IF {a.k, b.k} = {"sphere", "capsule"} THEN c.d ELSE IF {a.k, b.k} = {"box"} THEN c.d ++ Half(MinSize(a, b)) ELSE Half(c.d)) ++ tol IN In(a, c.p, m) /\ In(b, c.p, m)) THEN "contact position outside a body " \o Pair(e)
     ELSE IF ~IsClosed(a, b) /\ ~(LET m == (c.d ++ tol) ++ (IF e.sv = "i" THEN Size(a) ++ Size(b) ELSE Zero) IN In(a, c.p, m) /\ In(b, c.p, m)) THEN "contact position away from the bodies " \o Pair(e)
     ELSE IF {a.k, b.k} # {"box"} /\ IsClosed(a, b) /\ (c.d ++ tol) \prec ov THEN "moving apart by the depth does not separate " \o Pair(e)
     ELSE IF Minus1e9 \prec K.d /\ IsClosed(a, b) /\ (RNeg(K.d) ++ tol) \prec c.d THEN "deeper than a known separating translation " \o Pair(e)
     \* the portal found by MPR is crossed by the ray from the centers' difference
     ELSE IF e.sv = "c" /\ Bounded(a) /\ Bounded(b) /\ tol \prec c.d /\ VDot(c.n, VSub(Pivot(b), Pivot(a))) \prec RNeg(tol) THEN "normal points the wrong way " \o Pair(e)
     ELSE ""
\* of a box-box manifold, the deepest contact separates, but for what clipping cut off
ManifoldWhy(e) ==
  LET a == w[e.a]
      b == w[e.b]
      D == RSeqMax([q \in 1..Len(e.cs) |-> e.cs[q].d])
  IN IF {a.k, b.k} = {"box"} /\ e.cs # << >> /\ e.max > 9 /\ (D ++ (RQ(2, 10) ** MinSize(a, b))) \prec (SupX(a, e.cs[1].n) -- InfX(b, e.cs[1].n))
     THEN "moving apart by the depth does not separate " \o Pair(e) ELSE ""
\* Answers that are right, but less accurate than usual.  The iterative solvers
\* are limited in the number of vertices and iterations, so a few of those are
\* tolerated; they are counted and judged together (see "tally").
ContactLoose(e, K) ==
  LET a == w[e.a]
      b == w[e.b]
      tol == Tol(e)
      D == RSeqMax([q \in 1..Len(e.cs) |-> e.cs[q].d])
      ov == SupX(a, e.cs[1].n) -- InfX(b, e.cs[1].n)
  IN e.cs # << >> /\ VNorm(e.cs[1].n) # Zero /\ e.max > 9 /\ e.sv = "i" /\
     \/ (D ++ tol) \prec ov
     \/ ~(In(a, e.cs[1].p, D ++ tol) /\ In(b, e.cs[1].p, D ++ tol))
     \/ Minus1e9 \prec K.d /\ (RNeg(K.d) ++ tol) \prec D
RECURSIVE FirstWhy(_)
FirstWhy(s) == IF s = << >> THEN "" ELSE IF s[1] # "" THEN s[1] ELSE FirstWhy(Tail(s))
CollideWhy(e, K) ==
  LET m == Tol(e) IN
  IF "collide" \in Focus /\ e.res # (e.ret > 0) THEN "returned count and result disagree " \o Pair(e)
  ELSE IF "collide" \in Focus /\ ~e.res /\ K.hit THEN "missed a collision " \o Pair(e)
  ELSE IF "collide" \in Focus /\ e.res /\ m \prec K.lo THEN "reported a collision of separated bodies " \o Pair(e)
  ELSE IF "contact" \in Focus /\ e.con = 1 THEN
       IF e.ret # Len(e.cs) THEN "number of contacts differs from the returned count " \o Pair(e)
       ELSE IF Len(e.cs) > e.max THEN "more contacts than asked for " \o Pair(e)
       ELSE LET y == FirstWhy([q \in 1..Len(e.cs) |-> ContactWhy(e, e.cs[q], K)]) IN IF y # "" THEN y ELSE ManifoldWhy(e)
  ELSE ""
\* ------------------------------------------------------------------ distance
DistWhy(e, K) ==
  LET a == w[e.a]
      b == w[e.b]
      d == e.ret
      tol == RMax(Tol(e), RQ(1, 1000) ** Scale(e))
      n == Unit(VSub(e.p2, e.p1))
  IN IF ~RFin(d) THEN "distance is not finite " \o Pair(e)
     ELSE IF d # e.min THEN "returned distance differs from the result " \o Pair(e)
     ELSE IF K.hit /\ tol \prec d THEN "positive distance of intersecting bodies " \o Pair(e)
     ELSE IF tol \prec K.lo /\ d \prec (K.lo -- tol) THEN "distance below a lower bound " \o Pair(e)
     ELSE IF Zero \prec K.d /\ ~RNear(d, K.d, (IF e.sv = "c" THEN R(10) ELSE One) ** tol) THEN "distance differs from the known one " \o Pair(e)
     ELSE IF tol \prec d /\ e.np = 1 THEN
          IF ~(VFin(e.p1) /\ VFin(e.p2)) THEN "nearest points are not finite " \o Pair(e)
          ELSE IF ~In(a, e.p1, tol) THEN "nearest point 1 is not on body 1 " \o Pair(e)
          ELSE IF ~In(b, e.p2, tol) THEN "nearest point 2 is not on body 2 " \o Pair(e)
          ELSE IF ~RNear(VDist(e.p1, e.p2), d, tol) THEN "nearest points are not that far apart " \o Pair(e)
          ELSE IF Bounded(a) /\ Bounded(b) /\ GapAlong(a, b, n) \prec (d -- ((IF e.sv = "c" THEN R(20) ELSE R(5)) ** tol)) THEN "not the minimum distance " \o Pair(e)
          ELSE ""
     ELSE ""
DistLoose(e, K) ==
  LET n == Unit(VSub(e.p2, e.p1))
      tol == Tol(e)
  IN \/ Zero \prec K.d /\ ~RNear(e.ret, K.d, tol)
     \/ e.np = 1 /\ tol \prec e.ret /\ Bounded(w[e.a]) /\ Bounded(w[e.b]) /\ GapAlong(w[e.a], w[e.b], n) \prec (e.ret -- tol)
SignedWhy(e, K) ==
  LET a == w[e.a]
      b == w[e.b]
      d == e.ret
      tol == RQ(3, 1000) ** Scale(e)
  IN IF ~RFin(d) THEN "signed distance is not finite " \o Pair(e)
     ELSE IF K.hit /\ Zero \prec (d -- tol) THEN "positive distance of intersecting bodies " \o Pair(e)
     ELSE IF tol \prec K.lo /\ d \prec (K.lo -- tol) THEN "signed distance below a lower bound " \o Pair(e)
     \* touching bodies: the witnesses are not determined
     ELSE IF e.np = 1 /\ tol \prec RAbs(d) /\ ~(VFin(e.p1) /\ VFin(e.p2)) THEN "signed: nearest points are not finite " \o Pair(e)
     ELSE IF d # e.min THEN "returned distance differs from the result " \o Pair(e)
     ELSE IF Zero \prec K.d /\ ~RNear(d, K.d, (IF e.sv = "c" THEN R(10) ELSE One) ** tol) THEN "signed: distance differs from the known one " \o Pair(e)
     ELSE IF d \prec RNeg(Size(a) ++ Size(b)) THEN "signed: deeper than the bodies are large " \o Pair(e)
     ELSE IF d \prec RNeg(tol) /\ e.np = 1 /\ e.sv = "c" THEN
          IF ~(In(a, e.p1, tol) /\ In(b, e.p2, tol)) THEN "signed: nearest points are not on the bodies " \o Pair(e)
          ELSE IF ~RNear(VDist(e.p1, e.p2), RNeg(d), tol) THEN "signed: nearest points do not show the depth " \o Pair(e)
          ELSE ""
     ELSE ""
SignedLoose(e, K) ==
  LET a == w[e.a]
      b == w[e.b]
      d == e.ret
      tol == RQ(3, 1000) ** Scale(e)
  IN \/ Zero \prec K.d /\ ~RNear(e.ret, K.d, tol)
     \/ Minus1e9 \prec K.d /\ K.d \prec Zero /\ d \prec (K.d -- tol)
     \/ Zero \prec K.deep /\ (RNeg(K.deep) ++ tol) \prec d
     \/ e.np = 1 /\ e.sv = "c" /\ d \prec RNeg(tol) /\ ~RNear(GapAlong(a, b, Unit(VSub(e.p1, e.p2))), d, tol)
Rates(e) == e.op = "distance" \/ (e.op = "collide" /\ e.sv = "i" /\ e.cs # << >> /\ e.max > 9)
\* polytopes are handled exactly
Few(e) == LET P == {"box", "convex"} IN {w[0].k, w[1].k} # {"box"} /\ w[0].k \in P /\ w[1].k \in P
Loose(e, K) == CASE e.op = "collide" /\ "contact" \in Focus /\ e.con = 1 -> ContactLoose(e, K)
                 [] e.op = "distance" /\ e.sig = 0 /\ "distance" \in Focus -> DistLoose(e, K)
                 [] e.op = "distance" /\ e.sig = 1 /\ "signed" \in Focus -> SignedLoose(e, K)
                 [] OTHER -> FALSE
\* ------------------------------------------------------------------ facts stated by the generator: checked, not believed
KnownOK(e) ==
  LET a == w[0]
      b == w[1]
      tol == RQ(1, 1000000) ** (One ++ RMax(Size(a), Size(b)))
  IN /\ Bounded(a) /\ Bounded(b)
     /\ DistanceCert(a, b, e.n, e.pa, e.pb, e.g, tol)

Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
\* libccd's expanding polytope may declare a configuration failed; rarely
Refusable(e) == e.sig = 1 /\ e.sv = "c"
Why(e, K) == CASE Fatal(e) -> e.op
               [] e.op = "refused" -> IF Refusable(e) THEN "" ELSE "query refused " \o Pair(e)
               [] e.op = "collide" -> CollideWhy(e, K)
               [] e.op = "distance" /\ e.sig = 0 /\ "distance" \in Focus -> DistWhy(e, K)
               [] e.op = "distance" /\ e.sig = 1 /\ "signed" \in Focus -> SignedWhy(e, K)
               [] e.op = "tally" -> IF acc.ref * 20 > acc.n + 40 THEN "too many refused queries" ELSE IF (IF Few(e) THEN acc.bad * 20 > acc.n + 40 ELSE acc.bad * 5 > (acc.n * 2) + 20) THEN "too many inaccurate answers" ELSE ""
               [] OTHER -> ""
Body(e) == [k |-> e.k, p |-> e.p, v |-> e.v, f |-> e.f, t |-> e.t, R |-> IdM, t0 |-> VZero]
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         K == IF e.op \in {"collide", "distance"} THEN Know ELSE know
         y == Why(e, K)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y >>) ELSE TRUE
        /\ CASE e.op \in {"shape", "mesh"} -> /\ w' = [s \in DOMAIN w \cup {e.s} |-> IF s = e.s THEN Body(e) ELSE w[s]]
                                                    /\ know' = NoKnow
                  [] e.op = "pose" -> /\ w' = [w EXCEPT ![e.s].R = e.R, ![e.s].t0 = e.t]
                                      /\ know' = NoKnow
                  [] e.op = "known" -> /\ Assert(KnownOK(e), << "bad certificate", T[h].id, i >>)
                                       /\ know' = [know EXCEPT !.lo = e.g, !.d = e.g,
                                            !.hit = e.g \prec Zero /\ \E x \in {e.pa, e.pb, VScale(RQ(1, 2), VAdd(e.pa, e.pb))} :
                                                       HitPoint(w[0], w[1], x, RQ(1, 1000) ** (One ++ RMax(Size(w[0]), Size(w[1]))))]
                                       /\ UNCHANGED w
                  [] OTHER -> know' = K /\ UNCHANGED w
        /\ acc' = IF e.op = "tally" THEN [n |-> 0, bad |-> 0, ref |-> 0]
                  ELSE IF e.op = "refused" THEN [acc EXCEPT !.ref = @ + 1]
                  ELSE IF e.op \in {"collide", "distance"} /\ y = "" /\ Rates(e) THEN [acc EXCEPT !.n = @ + 1, !.bad = @ + (IF Loose(e, K) THEN 1 ELSE 0)]
                  ELSE acc
  /\ i' = i + 1
  /\ UNCHANGED h
=============================================================================
