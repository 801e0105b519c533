----------------------------- MODULE SweepPrune -----------------------------
(***************************************************************************)
(* Design of the incremental sweep-and-prune manager: per axis a sorted    *)
(* list of interval end points, and a list of overlapping pairs maintained *)
(* only at crossings of end points.  A box is a function axis -> <<lo,hi>>.*)
(*                                                                         *)
(* The refinement to Broadphase is the invariant PairsExact: the pair list *)
(* is, after every operation, exactly the set of overlapping pairs, each   *)
(* once -- which is all a self query reports.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Obj, Axes, Max     \* Max[a]: largest coordinate on axis a
VARIABLES reg, cached, lists, pairs
vars == << reg, cached, lists, pairs >>

Intervals(a) == { << l, u >> \in (0..Max[a]) \X (0..Max[a]) : l <= u }
BoxSet == { b \in [Axes -> UNION { Intervals(a) : a \in Axes }] : \A a \in Axes : b[a] \in Intervals(a) }
Overlap(p, q) == \A a \in Axes : p[a][1] <= q[a][2] /\ q[a][1] <= p[a][2]

Lo(o) == << o, 1 >>
Hi(o) == << o, 2 >>
Val(c, e, a) == c[e[1]][a][e[2]]
PosOf(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
InsAt(s, i, e) == SubSeq(s, 1, i - 1) \o << e >> \o SubSeq(s, i, Len(s))
Del(s, e) == LET i == PosOf(s, e) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Pr(o, p) == IF o < p THEN << o, p >> ELSE << p, o >>

\* pairs is a bag (object pair -> multiplicity), so that duplicates show
Add(P, o, p) == IF Pr(o, p) \in DOMAIN P THEN P ELSE [x \in DOMAIN P \cup { Pr(o, p) } |-> IF x = Pr(o, p) THEN 1 ELSE P[x]]
Rem(P, o, p) == [x \in DOMAIN P \ { Pr(o, p) } |-> P[x]]

\* one step of a moving end point past its neighbour; st = <<list, pairs>>
RECURSIVE LoBack(_, _, _, _, _), HiFwd(_, _, _, _, _), LoFwd(_, _, _, _, _), HiBack(_, _, _, _, _)
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
LoBack(st, c, o, a, nb) ==
  LET i == PosOf(st[1], Lo(o)) IN
  IF i = 1 THEN st
  ELSE LET e == st[1][i - 1] IN
    IF Val(c, e, a) < nb[a][1] THEN st
    ELSE LoBack(<< Swap(st[1], i - 1),
                   IF e[2] = 2 /\ Overlap(c[e[1]], nb) THEN Add(st[2], e[1], o) ELSE st[2] >>, c, o, a, nb)
HiFwd(st, c, o, a, nb) ==
  LET i == PosOf(st[1], Hi(o)) IN
  IF i = Len(st[1]) THEN st
  ELSE LET e == st[1][i + 1] IN
    IF Val(c, e, a) > nb[a][2] THEN st
    ELSE HiFwd(<< Swap(st[1], i),
                  IF e[2] = 1 /\ Overlap(c[e[1]], nb) THEN Add(st[2], e[1], o) ELSE st[2] >>, c, o, a, nb)
LoFwd(st, c, o, a, nb) ==
  LET i == PosOf(st[1], Lo(o))
      e == st[1][i + 1] IN
    IF e = Hi(o) \/ Val(c, e, a) >= nb[a][1] THEN st
    ELSE LoFwd(<< Swap(st[1], i),
                  IF e[2] = 2 /\ Overlap(c[e[1]], c[o]) THEN Rem(st[2], e[1], o) ELSE st[2] >>, c, o, a, nb)
HiBack(st, c, o, a, nb) ==
  LET i == PosOf(st[1], Hi(o))
      e == st[1][i - 1] IN
    IF e = Lo(o) \/ Val(c, e, a) <= nb[a][2] THEN st
    ELSE HiBack(<< Swap(st[1], i - 1),
                   IF e[2] = 1 /\ Overlap(c[e[1]], c[o]) THEN Rem(st[2], e[1], o) ELSE st[2] >>, c, o, a, nb)
Sweep(st, c, o, a, nb) == HiBack(LoFwd(HiFwd(LoBack(st, c, o, a, nb), c, o, a, nb), c, o, a, nb), c, o, a, nb)

RECURSIVE SweepAll(_, _, _, _, _)
\* the axes in order
SweepAll(L, P, o, a, nb) ==
  IF a \notin Axes THEN << L, P >>
  ELSE LET r == Sweep(<< L[a], P >>, cached, o, a, nb) IN SweepAll([L EXCEPT ![a] = r[1]], r[2], o, a + 1, nb)

\* insertion of a new object: its end points into the lists, its pairs by a scan
FirstGE(s, c, a, v) == IF \E i \in 1..Len(s) : Val(c, s[i], a) >= v
                       THEN CHOOSE i \in 1..Len(s) : Val(c, s[i], a) >= v /\ \A j \in 1..(i - 1) : Val(c, s[j], a) < v
                       ELSE Len(s) + 1
FirstGT(s, c, a, v) == FirstGE(s, c, a, v + 1)
InsertAxis(s, c, o, a, b) == InsAt(InsAt(s, FirstGT(s, c, a, b[a][2]), Hi(o)), FirstGE(s, c, a, b[a][1]), Lo(o))

Register(o, b) ==
  /\ o \notin reg
  /\ reg' = reg \cup { o }
  /\ cached' = [p \in reg \cup { o } |-> IF p = o THEN b ELSE cached[p]]
  /\ lists' = [a \in Axes |-> InsertAxis(lists[a], cached, o, a, b)]
  /\ LET s == lists'[1]
         before == { p \in reg : PosOf(s, Lo(p)) < PosOf(s, Hi(o)) /\ Overlap(cached[p], b) }
     IN pairs' = [x \in DOMAIN pairs \cup { Pr(p, o) : p \in before } |-> IF x \in DOMAIN pairs THEN pairs[x] ELSE 1]
Update(o, b) ==
  /\ o \in reg
  /\ LET r == SweepAll(lists, pairs, o, 1, b)
     IN lists' = r[1] /\ pairs' = r[2]
  /\ cached' = [cached EXCEPT ![o] = b]
  /\ UNCHANGED reg
Unregister(o) ==
  /\ o \in reg
  /\ reg' = reg \ { o }
  /\ cached' = [p \in reg \ { o } |-> cached[p]]
  /\ lists' = [a \in Axes |-> Del(Del(lists[a], Lo(o)), Hi(o))]
  /\ pairs' = [x \in { y \in DOMAIN pairs : o # y[1] /\ o # y[2] } |-> pairs[x]]

Init == reg = {} /\ cached = << >> /\ lists = [a \in Axes |-> << >>] /\ pairs = << >>
Next == \/ \E o \in Obj, b \in BoxSet : Register(o, b) \/ Update(o, b)
        \/ \E o \in Obj : Unregister(o)
Spec == Init /\ [][Next]_vars

Sorted == \A a \in Axes : \A i \in 1..(Len(lists[a]) - 1) : Val(cached, lists[a][i], a) <= Val(cached, lists[a][i + 1], a)
\* closed intervals: at equal values lower end points come first
TiesOrdered == \A a \in Axes : \A i, j \in 1..Len(lists[a]) :
   (i < j /\ lists[a][i][2] = 2 /\ lists[a][j][2] = 1) => Val(cached, lists[a][i], a) < Val(cached, lists[a][j], a)
ListsExact == \A a \in Axes : /\ Len(lists[a]) = 2 * Cardinality(reg)
                              /\ { lists[a][i] : i \in 1..Len(lists[a]) } = { Lo(o) : o \in reg } \cup { Hi(o) : o \in reg }
PairsExact == /\ DOMAIN pairs = { p \in reg \X reg : p[1] < p[2] /\ Overlap(cached[p[1]], cached[p[2]]) }
              /\ \A x \in DOMAIN pairs : pairs[x] = 1
=============================================================================
