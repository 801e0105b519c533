----------------------------- MODULE Broadphase -----------------------------
(***************************************************************************)
(* The broadphase collision managers of FCL as a state machine.            *)
(*                                                                         *)
(* A manager holds a set of objects.  Each object has a bounding box.  A   *)
(* manager only has to know about a change of a box once it is told        *)
(* by an update; between the change and the call the object is "dirty" and    *)
(* queries are outside the contract.  Queries do not change the state;     *)
(* what they may report is a relation between the state and the response   *)
(* (the Why operators), the same relation the trace specification applies  *)
(* to every response recorded from the seven implementations.              *)
(*                                                                         *)
(* A box is <<x0, y0, z0, x1, y1, z1>>, closed; boxes that touch overlap.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Overlap(a, b) == \A k \in 1..3 : a[k] <= b[k + 3] /\ b[k] <= a[k + 3]

Gap(a, b, k) == LET g1 == a[k] - b[k + 3]
                    g2 == b[k] - a[k + 3]
                    g == IF g1 > g2 THEN g1 ELSE g2
                IN IF g > 0 THEN g ELSE 0
BoxDist2(a, b) == Gap(a, b, 1) * Gap(a, b, 1) + Gap(a, b, 2) * Gap(a, b, 2)
                  + Gap(a, b, 3) * Gap(a, b, 3)

Norm(p) == IF p[1] <= p[2] THEN p ELSE << p[2], p[1] >>
Range(s) == { s[i] : i \in 1..Len(s) }

\* the unordered pairs a self query must report / may report
MustSelf(reg, box) ==
  UNION { { << a, b >> : b \in { c \in reg : a < c /\ Overlap(box[a], box[c]) } } : a \in reg }
MustObj(reg, box, q) == { a \in reg : Overlap(box[a], q) }
MustMM(r1, b1, r2, b2) ==
  UNION { { << a, b >> : b \in { c \in r2 : Overlap(b1[a], b2[c]) } } : a \in r1 }

(***************************************************************************)
(* Responses.  `pairs' is the sequence of pairs handed to the callback;    *)
(* `stop' = 0: the callback never asks to stop; `stop' = k: it asks to     *)
(* stop at its k-th call.                                                  *)
(***************************************************************************)
StopOK(n, stop, must) == IF stop = 0 THEN TRUE
                         ELSE /\ n <= stop
                              /\ Cardinality(must) >= stop => n = stop
CompleteOK(n, stop, must, got) == (stop # 0 /\ n = stop) \/ must \subseteq got

SelfWhy(reg, box, pairs, stop) ==
  LET got == { Norm(p) : p \in Range(pairs) }
      must == MustSelf(reg, box)
      n == Len(pairs)
  IN IF \E p \in got : p[1] = p[2] THEN "object paired with itself"
     ELSE IF \E p \in got : p[1] \notin reg \/ p[2] \notin reg THEN "reported an object that is not registered"
     ELSE IF Cardinality(got) # n THEN "pair reported twice"
     ELSE IF ~StopOK(n, stop, must) THEN "did not stop when the callback asked to"
     ELSE IF ~CompleteOK(n, stop, must, got) THEN "missed an overlapping pair"
     ELSE ""
\* the query object is -1
ObjWhy(reg, box, q, pairs, stop) ==
  LET other(p) == IF p[1] = -1 THEN p[2] ELSE p[1]
      got == { other(p) : p \in Range(pairs) }
      must == MustObj(reg, box, q)
      n == Len(pairs)
  IN IF \E p \in Range(pairs) : (p[1] = -1) = (p[2] = -1) THEN "pair without the query object"
     ELSE IF ~(got \subseteq reg) THEN "reported an object that is not registered"
     ELSE IF Cardinality(got) # n THEN "object reported twice"
     ELSE IF ~StopOK(n, stop, must) THEN "did not stop when the callback asked to"
     ELSE IF ~CompleteOK(n, stop, must, got) THEN "missed an overlapping object"
     ELSE ""
MMWhy(r1, b1, r2, b2, pairs, stop) ==
  LET orient(p) == IF p[1] \in r1 THEN p ELSE << p[2], p[1] >>
      got == { orient(p) : p \in Range(pairs) }
      must == MustMM(r1, b1, r2, b2)
      n == Len(pairs)
  IN IF \E p \in got : p[1] \notin r1 \/ p[2] \notin r2 THEN "reported a pair that is not across the two managers"
     ELSE IF Cardinality(got) # n THEN "pair reported twice"
     ELSE IF ~StopOK(n, stop, must) THEN "did not stop when the callback asked to"
     ELSE IF ~CompleteOK(n, stop, must, got) THEN "missed an overlapping pair"
     ELSE ""

(***************************************************************************)
(* Distance queries.  Distances are squared.  The callback's distance of a *)
(* pair is the box distance plus a surplus of the objects (true distances  *)
(* are at least box distances), and it keeps the minimum.  mode = 1: the   *)
(* callback stops at distance zero; mode = k > 1: after k - 1 pairs.  after *)
(* counts the pairs reported although the callback had asked to stop.      *)
(***************************************************************************)
Surplus(a) == (a * 7) % 4          \* matches harness/bp.cpp for a >= 0; -1 is the query
SurplusQ == 0
PairD(ba, bb, s) == BoxDist2(ba, bb) + s
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
DistWhy(n, best, mode, after, all, pairsOK) ==
  IF ~pairsOK THEN "reported a pair outside the registered objects"
  ELSE IF all = {} THEN (IF n # 0 THEN "reported a pair although there is none" ELSE "")
  ELSE IF n = 0 THEN "no pair reported"
  ELSE IF after > 0 THEN "did not stop when the callback asked to"
  ELSE IF best # SetMin(all) /\ ~(mode > 1 /\ n = mode - 1 /\ best \in all) THEN "minimum distance missed"
  ELSE ""

-----------------------------------------------------------------------------
(* The state machine, for model checking and for generating histories.     *)
CONSTANTS Obj, Boxes
VARIABLES reg, box, known
bvars == << reg, box, known >>

BInit == reg = {} /\ box \in [Obj -> Boxes] /\ known = << >>

Synced == \A o \in reg : known[o] = box[o]

Register(o, b) == /\ o \notin reg
                  /\ reg' = reg \cup {o}
                  /\ box' = [box EXCEPT ![o] = b]
                  /\ known' = known @@ (o :> b)
Unregister(o) == /\ o \in reg /\ known[o] = box[o]
                 /\ reg' = reg \ {o}
                 /\ known' = [p \in DOMAIN known \ {o} |-> known[p]]
                 /\ UNCHANGED box
Move(o, b) == o \in reg /\ box' = [box EXCEPT ![o] = b] /\ UNCHANGED << reg, known >>
UpdateOne(o) == o \in reg /\ known' = [known EXCEPT ![o] = box[o]] /\ UNCHANGED << reg, box >>
UpdateAll == known' = [o \in reg |-> box[o]] /\ UNCHANGED << reg, box >>
Setup == Synced /\ UNCHANGED bvars
Clear == reg' = {} /\ known' = << >> /\ UNCHANGED box

BNext == \/ \E o \in Obj, b \in Boxes : Register(o, b) \/ Move(o, b)
         \/ \E o \in Obj : Unregister(o) \/ UpdateOne(o)
         \/ UpdateAll \/ Setup \/ Clear
BSpec == BInit /\ [][BNext]_bvars

BTypeOK == /\ reg \subseteq Obj
           /\ DOMAIN known = reg
           /\ \A o \in Obj : box[o] \in Boxes
\* what the managers compute from what they know is, once synced, the truth
KnownIsTruth == Synced => MustSelf(reg, known) = MustSelf(reg, box)
\* an update of everything always restores the contract
AlwaysSyncable == ENABLED UpdateAll
=============================================================================
