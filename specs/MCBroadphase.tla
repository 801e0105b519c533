---------------------------- MODULE MCBroadphase ----------------------------
(* Broadphase, exhaustively, for a few objects and boxes.                  *)
EXTENDS Broadphase
MCObj == 1..3
MCBoxes == { << 0, 0, 0, 2, 2, 2 >>, << 2, 0, 0, 3, 1, 1 >>, << 1, 1, 1, 1, 1, 1 >>, << 3, 3, 3, 5, 5, 5 >>, << 0, 0, 0, 5, 5, 5 >> }

\* what a manager answers to a self query: the pairs it must report plus any
\* set of further registered pairs, in any order
Answers == { s \in UNION { [1..n -> MustSelf(reg, known) ] : n \in 0..3 } : SelfWhy(reg, known, s, 0) = "" }
\* the response relation is satisfiable in every state, and is not vacuous:
\* dropping or repeating a pair, or pairing an object with itself, is rejected
RespSane ==
  LET must == MustSelf(reg, known)
      seqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
      full == seqOf(must)
  IN /\ SelfWhy(reg, known, full, 0) = ""
     /\ must # {} => /\ SelfWhy(reg, known, Tail(full), 0) # ""
                     /\ SelfWhy(reg, known, Append(full, full[1]), 0) # ""
                     /\ SelfWhy(reg, known, << full[1] >>, 1) = ""
                     /\ SelfWhy(reg, known, << >>, 1) # ""
     /\ \A o \in reg : /\ SelfWhy(reg, known, Append(full, << o, o >>), 0) # ""
                       /\ ObjWhy(reg, known, known[o], [k \in 1..Cardinality(reg) |-> << -1, (CHOOSE f \in [1..Cardinality(reg) -> reg] : Range(f) = reg)[k] >>], 0) = ""
\* boxes overlap iff their distance is zero: pruning by distance is sound
OverlapIsZeroDist == \A a, b \in MCBoxes : Overlap(a, b) <=> BoxDist2(a, b) = 0
\* the box distance never exceeds the distance of any two contained boxes
Inside(a, b) == \A k \in 1..3 : b[k] <= a[k] /\ a[k + 3] <= b[k + 3]
PruneSound == \A a, b, c, d \in MCBoxes : Inside(c, a) /\ Inside(d, b) => BoxDist2(a, b) <= BoxDist2(c, d)
=============================================================================
