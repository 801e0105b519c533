------------------------------- MODULE TraceBV -------------------------------
(* Conformance of recorded bounding volume operations (harness bv) to BVOps. *)
EXTENDS BVOps, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, vol, pts, size
tvars == << h, i, vol, pts, size >>
Regs == 0..7
Nothing == [k |-> "none"]
TInit == h \in 1..Len(T) /\ i = 1 /\ vol = [r \in Regs |-> Nothing] /\ pts = [r \in Regs |-> {}] /\ size = RQ(1, 1000)

SetOf(s) == { s[k] : k \in 1..Len(s) }
RECURSIVE Scale(_)
Scale(S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN RMax(VNorm(x), Scale(S \ {x}))
Eps == RQ(1, 1000000) ** size
Encl(b, S, e) == \A x \in S : InBV(b, x, e)
New(e) ==    \* the points a new volume must enclose
  CASE e.op \in {"fit", "one"} -> SetOf(e.ps)
    [] e.op = "addp" -> pts[e.r] \cup SetOf(e.ps)
    [] e.op = "merge" -> pts[e.a] \cup pts[e.b]
    [] e.op = "trans" -> { VAdd(x, e.t) : x \in pts[e.a] }
    [] e.op = "grow" -> pts[e.a]
Builds(e) == e.op \in {"fit", "one", "addp", "merge", "trans", "grow"}
More(e) ==   \* and further points: the volumes it is made of
  CASE e.op = "addp" -> Samples(vol[e.r])
    [] e.op = "merge" -> Samples(vol[e.a]) \cup Samples(vol[e.b])
    [] e.op = "trans" -> { VAdd(x, e.t) : x \in Samples(vol[e.a]) }
    [] e.op = "grow" -> UNION { { VAdd(x, << s[1] ** e.d[1], s[2] ** e.d[2], s[3] ** e.d[3] >>) : s \in SetOf(Signs) } : x \in Samples(vol[e.a]) }
    [] OTHER -> {}
MaxPair(P, Q) == LET D == { VDist(x, y) : x \in P, y \in Q } IN CHOOSE d \in D : \A c \in D : d \preceq c
DistWhy(e, a, b, P, Q) ==
  IF ~RFin(e.ret) \/ e.ret \prec Zero THEN "distance is no distance"
  ELSE IF P # {} /\ Q # {} /\ (MaxPair(P, Q) ++ Eps) \prec e.ret THEN "distance exceeds that of enclosed points"
  ELSE IF ~RNear(e.ret, DistOf(a, b), RQ(1, 100000) ** size) THEN "distance is not the distance of the volumes"
  ELSE IF e.op = "dist" /\ e.np = 1 /\ Eps \prec e.ret THEN
    (IF a.k = "AABB" /\ ~(InBV(a, e.P, Eps) /\ InBV(b, e.Q, Eps) /\ RNear(VDist(e.P, e.Q), e.ret, Eps)) THEN "nearest points are not"
     ELSE IF a.k \in {"RSS", "OBBRSS"} /\ ~RNear(VDist(e.P, e.Q) -- (a.r ++ b.r), e.ret, RQ(1, 100000) ** size) THEN "nearest points do not have that distance"
     ELSE IF a.k = "kIOS" /\ ~RNear(VDist(e.P, e.Q), e.ret, Eps) THEN "nearest points do not have that distance" ELSE "")
  ELSE IF e.op = "dist" /\ e.np = 1 /\ a.k = "AABB" /\ ~(InBV(a, e.P, Eps) /\ InBV(b, e.Q, Eps)) THEN "nearest points of meeting boxes are not in them"
  ELSE ""
\* answers on the boundary are free
Slack == RQ(1, 20000) ** size
Shared(P, Q) == P \cap Q # {}
OverWhy(e, a, b, P, Q) ==
  IF ~e.ret /\ Shared(P, Q) /\ a.k \in {"AABB", "KDOP"} THEN "volumes of sets that share a point do not overlap"
  ELSE IF ~e.ret /\ Meet(a, b, Slack) THEN "meeting volumes do not overlap"
  ELSE IF e.ret /\ Apart(a, b, Slack) THEN "volumes that are apart overlap" ELSE ""
Why(e) ==
  CASE e.op \in {"Crash", "Hang", "Exception"} -> e.op
    [] Builds(e) -> IF ~WellFormed(e.bv) THEN e.op \o " gives no volume"
                    ELSE IF ~Encl(e.bv, New(e), Eps) THEN e.op \o " loses a point"
                    ELSE IF ~Encl(e.bv, More(e), Eps) THEN e.op \o " loses part of a volume"
                    ELSE IF e.op = "trans" /\ ~(\A x \in Samples(e.bv) : InBV(vol[e.a], VSub(x, e.t), Eps)) THEN "translation changed the volume" ELSE ""
    [] e.op = "conv" -> IF ~WellFormed(e.bv) THEN "conversion gives no volume"
                        ELSE IF ~Encl(e.bv, { Place(e.R, e.t, x) : x \in pts[e.a] \cup Samples(vol[e.a]) }, Eps) THEN "conversion to " \o e.bv.k \o " loses part of the volume" ELSE ""
    [] e.op = "over" -> OverWhy(e, vol[e.a], vol[e.b], pts[e.a], pts[e.b])
    [] e.op = "overrel" -> OverWhy(e, vol[e.a], Moved(vol[e.b], e.R, e.t), {}, {})
    [] e.op = "dist" -> DistWhy(e, vol[e.a], vol[e.b], pts[e.a], pts[e.b])
    [] e.op = "distrel" -> DistWhy(e, vol[e.a], Moved(vol[e.b], e.R, e.t), pts[e.a], { Place(e.R, e.t, x) : x \in pts[e.b] })
    [] e.op = "cont" -> IF e.ret /\ ~Has(vol[e.a], e.p, Eps) THEN "a point outside is reported inside"
                        ELSE IF ~e.ret /\ Has(vol[e.a], e.p, RNeg(Eps)) THEN "a point inside is reported outside" ELSE ""
    [] e.op = "part" -> LET a == vol[e.a] b == vol[e.b] IN
                        IF e.ret # (AABBGap(a, b) \preceq Zero) THEN "overlap of boxes"
                        ELSE IF e.ret /\ \E k \in 1..3 : e.bv.lo[k] # RMax(a.lo[k], b.lo[k]) \/ e.bv.hi[k] # RMin(a.hi[k], b.hi[k]) THEN "overlapping part of boxes" ELSE ""
    [] e.op = "holds" -> LET a == vol[e.a] b == vol[e.b] IN IF e.ret # (\A k \in 1..3 : a.lo[k] \preceq b.lo[k] /\ b.hi[k] \preceq a.hi[k]) THEN "containment of boxes" ELSE ""
    [] e.op = "axis" -> LET a == vol[e.a] b == vol[e.b] k == e.k + 1 IN IF e.ret # (a.lo[k] \preceq b.hi[k] /\ b.lo[k] \preceq a.hi[k]) THEN "overlap along an axis" ELSE ""
    [] e.op = "meas" -> LET a == vol[e.a] IN
                        IF ~(RNear(e.vol, (e.w ** e.h) ** e.dp, Eps) \/ a.k \in {"RSS", "OBBRSS"}) \/ e.w \prec Zero \/ e.h \prec Zero \/ e.dp \prec Zero THEN "measures"
                        ELSE IF a.k # "kIOS" /\ ~Has(a, e.c, Eps) /\ a.k # "KDOP" THEN "center is outside" ELSE ""
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         y == Why(e)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y >>) ELSE TRUE
        /\ IF Builds(e) THEN /\ vol' = [vol EXCEPT ![e.r] = e.bv]
                             /\ pts' = [pts EXCEPT ![e.r] = New(e)]
                             /\ size' = RMax(size, Scale(New(e)))
           ELSE IF e.op = "overrel" \/ e.op = "distrel" THEN size' = RMax(size, VNorm(e.t)) /\ UNCHANGED << vol, pts >>
           ELSE UNCHANGED << vol, pts, size >>
        /\ i' = IF y # "" THEN Len(T[h].ev) + 1 ELSE i + 1
        /\ UNCHANGED h
=============================================================================
