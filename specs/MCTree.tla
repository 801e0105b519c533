------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* The dynamic binary tree of bounding volumes as an algorithm: a leaf is  *)
(* put beside any other leaf, a removed leaf's parent gives way to its     *)
(* sibling, boxes are corrected upwards only as far as something changes,  *)
(* and incremental balancing may exchange a node with its parent.  Boxes   *)
(* are intervals.  Checked: whatever the choices, the tree stays a full    *)
(* binary tree of exactly the live leaves, and every inner box is the      *)
(* union of its children's boxes.                                          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Leaves, Top
VARIABLES root, nd, live
vars == << root, nd, live >>
Boxes == { << a, b >> \in (0..Top) \X (0..Top) : a <= b }
Inner == { 100 + k : k \in 1..(Cardinality(Leaves) - 1) }
None == 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Union(a, b) == << Min(a[1], b[1]), Max(a[2], b[2]) >>
Contains(a, b) == a[1] <= b[1] /\ b[2] <= a[2]
Leaf(n, b) == [l |-> None, r |-> None, up |-> None, b |-> b]
Other(N, p, x) == IF N[p].l = x THEN N[p].r ELSE N[p].l
Replace(N, p, x, y) == [N EXCEPT ![p] = IF @.l = x THEN [@ EXCEPT !.l = y] ELSE [@ EXCEPT !.r = y]]
Drop(N, x) == [q \in DOMAIN N \ {x} |-> N[q]]
Fresh(N) == CHOOSE q \in Inner : q \notin DOMAIN N
\* upwards after an insertion below p: stop at the first box that is large enough
RECURSIVE Widen(_, _, _)
Widen(N, p, c) == IF p = None \/ Contains(N[p].b, N[c].b) THEN N
                  ELSE Widen([N EXCEPT ![p].b = Union(N[N[p].l].b, N[N[p].r].b)], N[p].up, p)
\* upwards after a removal below p: stop at the first box that stays the same
RECURSIVE Shrink(_, _)
Shrink(N, p) == IF p = None THEN N
                ELSE LET b == Union(N[N[p].l].b, N[N[p].r].b)
                     IN IF b = N[p].b THEN N ELSE Shrink([N EXCEPT ![p].b = b], N[p].up)
\* << tree, root >> after putting the leaf x with box b beside the leaf s
Put(N, rt, x, b, s) ==
  IF rt = None THEN << (x :> Leaf(x, b)) @@ N, x >>
  ELSE LET q == Fresh(N)
           p == N[s].up
           M == (x :> [Leaf(x, b) EXCEPT !.up = q]) @@ (q :> [l |-> s, r |-> x, up |-> p, b |-> Union(b, N[s].b)]) @@ [N EXCEPT ![s].up = q]
       IN IF p = None THEN << M, q >> ELSE << Widen(Replace(M, p, s, q), p, q), rt >>
Take(N, rt, x) ==
  IF rt = x THEN << Drop(N, x), None >>
  ELSE LET p == N[x].up
           s == Other(N, p, x)
           g == N[p].up
           M == Drop(Drop([N EXCEPT ![s].up = g], p), x)
       IN IF g = None THEN << M, s >> ELSE << Shrink(Replace(M, g, p, s), g), rt >>
LeavesOf(N) == DOMAIN N \cap Leaves
Sites(N, rt) == IF rt = None THEN {None} ELSE LeavesOf(N)
\* an inner node n changes places with its parent p
Swap(N, rt, n) ==
  LET p == N[n].up
      s == Other(N, p, n)
      q == N[p].up
      left == N[p].l = n
      M == [N EXCEPT ![p] = [l |-> N[n].l, r |-> N[n].r, up |-> n, b |-> N[n].b],
                     ![n] = [l |-> IF left THEN p ELSE s, r |-> IF left THEN s ELSE p, up |-> q, b |-> N[p].b],
                     ![s].up = n, ![N[n].l].up = p, ![N[n].r].up = p]
  IN IF q = None THEN << M, n >> ELSE << Replace(M, q, p, n), rt >>
Become(t) == nd' = t[1] /\ root' = t[2]
Init == root = None /\ nd = [x \in {} |-> None] /\ live = [x \in {} |-> None]
Insert(x, b) == x \notin DOMAIN live /\ live' = (x :> b) @@ live /\ \E s \in Sites(nd, root) : Become(Put(nd, root, x, b, s))
Remove(x) == x \in DOMAIN live /\ live' = Drop(live, x) /\ Become(Take(nd, root, x))
Move(x, b) == /\ x \in DOMAIN live /\ live' = [live EXCEPT ![x] = b]
              /\ LET t == Take(nd, root, x) IN \E s \in Sites(t[1], t[2]) : Become(Put(t[1], t[2], x, b, s))
Rotate(n) == n \in DOMAIN nd \cap Inner /\ nd[n].up # None /\ Become(Swap(nd, root, n)) /\ UNCHANGED live
Next == \/ \E x \in Leaves, b \in Boxes : Insert(x, b) \/ Move(x, b)
        \/ \E x \in Leaves : Remove(x)
        \/ \E n \in Inner : Rotate(n)
Spec == Init /\ [][Next]_vars
RECURSIVE Reach(_)
Reach(n) == IF n = None THEN {} ELSE IF n \in Leaves THEN {n} ELSE {n} \cup Reach(nd[n].l) \cup Reach(nd[n].r)
Whole == /\ Reach(root) = DOMAIN nd
         /\ LeavesOf(nd) = DOMAIN live
         /\ Cardinality(DOMAIN nd) = (IF DOMAIN live = {} THEN 0 ELSE 2 * Cardinality(DOMAIN live) - 1)
         /\ (root # None => nd[root].up = None)
Links == \A n \in DOMAIN nd \cap Inner : nd[nd[n].l].up = n /\ nd[nd[n].r].up = n /\ nd[n].l # nd[n].r
Exact == /\ \A x \in DOMAIN live : nd[x].b = live[x]
         /\ \A n \in DOMAIN nd \cap Inner : nd[n].b = Union(nd[nd[n].l].b, nd[nd[n].r].b)
=============================================================================
