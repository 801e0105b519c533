------------------------------ MODULE TraceTree ------------------------------
(***************************************************************************)
(* Conformance of the search structures (harness tree).  The state is what *)
(* a user put into each structure; every event shows the whole structure   *)
(* afterwards, which must hold exactly that and keep its invariants.       *)
(*   live   leaves of the tree of boxes  (number -> box);  dirty: boxes    *)
(*          were changed without telling the tree                          *)
(*   iv     intervals of the interval tree  (number -> << low, high >>)    *)
(*   bag    what was put into the hash tables: set of << number, box >>    *)
(***************************************************************************)
EXTENDS Real64, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, live, dirty, iv, bag, hash
tvars == << h, i, live, dirty, iv, bag, hash >>
Nobody == [q \in {} |-> << >>]
TInit == h \in 1..Len(T) /\ i = 1 /\ live = Nobody /\ dirty = FALSE /\ iv = Nobody /\ bag = << >> /\ hash = << >>

Eq(a, b) == a \preceq b /\ b \preceq a
SameB(a, b) == \A k \in 1..3 : Eq(a[1][k], b[1][k]) /\ Eq(a[2][k], b[2][k])
InB(a, b) == \A k \in 1..3 : b[1][k] \preceq a[1][k] /\ a[2][k] \preceq b[2][k]     \* a within b
Meet(a, b) == \A k \in 1..3 : a[1][k] \preceq b[2][k] /\ b[1][k] \preceq a[2][k]
Both(a, b) == << [k \in 1..3 |-> RMin(a[1][k], b[1][k])], [k \in 1..3 |-> RMax(a[2][k], b[2][k])] >>
Close(x, y) == RNear(x, y, RQ(1, 1000000000) ** (One ++ RAbs(x)))
SetOf(s) == { s[k] : k \in 1..Len(s) }
With(f, k, x) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]]
Less(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]

\* ------------------------------------------------------------ trees of boxes
IsLeaf(n) == n.l = 0
RECURSIVE Height(_, _)
Height(N, q) == IF q = 0 \/ IsLeaf(N[q]) THEN 0 ELSE LET a == Height(N, N[q].l)
                                                        b == Height(N, N[q].r) IN 1 + (IF a < b THEN b ELSE a)
TreeWhy(e, L, dirt) ==
  LET N == e.nodes
      Q == 1..Len(N)
      Lf == { q \in Q : IsLeaf(N[q]) }
  IN IF ~e.ok THEN "the structure is not a tree "
     ELSE IF { N[q].id : q \in Lf } # DOMAIN L \/ Cardinality(Lf) # Cardinality(DOMAIN L) THEN "its leaves are not what was put in "
     ELSE IF ~e.same THEN "a leaf is not the node that was handed out "
     ELSE IF Len(N) # (IF DOMAIN L = {} THEN 0 ELSE 2 * Cardinality(DOMAIN L) - 1) THEN "a node with one child "
     ELSE IF Q # {} /\ N[1].up # 0 THEN "the root has a parent "
     ELSE IF \E q \in Q \ Lf : N[q].l = 0 \/ N[q].r = 0 \/ N[q].l = N[q].r \/ N[N[q].l].up # q \/ N[N[q].r].up # q THEN "parents and children disagree "
     ELSE IF \E q \in Lf : ~SameB(N[q].b, L[N[q].id]) THEN "a leaf has another box "
     ELSE IF ~dirt /\ \E q \in Q \ Lf : ~InB(N[N[q].l].b, N[q].b) \/ ~InB(N[N[q].r].b, N[q].b) THEN "a box does not enclose its children "
     ELSE IF ~dirt /\ \E q \in Q \ Lf : LET b == Both(N[N[q].l].b, N[N[q].r].b) IN \E k \in 1..3 : ~Close(b[1][k], N[q].b[1][k]) \/ ~Close(b[2][k], N[q].b[2][k]) THEN "a box is larger than its children need "
     ELSE IF e.n # Cardinality(DOMAIN L) \/ e.empty # (DOMAIN L = {}) THEN "size is wrong "
     ELSE IF e.height # Height(N, IF Q = {} THEN 0 ELSE 1) \/ e.depth # e.height THEN "height is wrong "
     ELSE ""
Moved(e) == ~InB(e.b, live[e.id])     \* a box within the old one changes nothing
Live(e) == CASE e.op \in {"tree", "clear"} -> Nobody
             [] e.op = "init" -> [q \in { x.id : x \in SetOf(e.leaves) } |-> (CHOOSE x \in SetOf(e.leaves) : x.id = q).b]
             [] e.op \in {"insert", "touch", "set"} -> With(live, e.id, e.b)
             [] e.op = "move" -> IF Moved(e) THEN With(live, e.id, e.b) ELSE live
             [] e.op = "remove" -> Less(live, e.id)
             [] OTHER -> live
Dirt(e) == e.op = "set" \/ (dirty /\ e.op \in {"insert", "remove"})

\* ------------------------------------------------------------ interval trees
RECURSIVE Blacks(_, _)     \* black height, -1 when it differs
Blacks(N, q) == IF q = 0 THEN 1 ELSE LET a == Blacks(N, N[q].l)
                                         b == Blacks(N, N[q].r) IN IF a = -1 \/ a # b THEN -1 ELSE a + (IF N[q].red THEN 0 ELSE 1)
Red(N, q) == q # 0 /\ N[q].red
MaxOf(N, q) == LET a == IF N[q].l = 0 THEN N[q].hi ELSE RMax(N[q].hi, N[N[q].l].max) IN IF N[q].r = 0 THEN a ELSE RMax(a, N[N[q].r].max)
Sorted(s, V) == \A k \in 1..(Len(s) - 1) : V[s[k]][1] \preceq V[s[k + 1]][1]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
ITreeWhy(e, V) ==
  LET N == e.nodes
      Q == 1..Len(N)
  IN IF ~e.ok THEN "the interval tree is not a tree "
     ELSE IF { N[q].id : q \in Q } # DOMAIN V \/ Len(N) # Cardinality(DOMAIN V) THEN "its intervals are not what was put in "
     ELSE IF \E q \in Q : (N[q].l # 0 /\ N[N[q].l].up # q) \/ (N[q].r # 0 /\ N[N[q].r].up # q) THEN "interval parents and children disagree "
     ELSE IF \E q \in Q : ~Eq(N[q].key, V[N[q].id][1]) \/ ~Eq(N[q].hi, V[N[q].id][2]) THEN "a node has another interval "
     ELSE IF \E q \in Q : ~Eq(N[q].max, MaxOf(N, q)) THEN "the upper bound of a subtree is wrong "
     ELSE IF Len(e.fwd) # Len(N) \/ e.back # Rev(e.fwd) \/ ~Sorted(e.fwd, V) THEN "intervals are not in order "
     ELSE IF (Q # {} /\ N[1].red) \/ (\E q \in Q : N[q].red /\ (Red(N, N[q].l) \/ Red(N, N[q].r))) \/ (Q # {} /\ Blacks(N, 1) = -1) THEN "the interval tree is not balanced "
     ELSE IF e.op = "idel" /\ e.got # e.id THEN "another interval was deleted "
     ELSE IF e.op = "iask" /\ ~(SetOf(e.got) = { q \in DOMAIN V : V[q][1] \preceq e.hi /\ e.lo \preceq V[q][2] } /\ Len(e.got) = Cardinality(SetOf(e.got))) THEN "the query's answer is not the overlapping intervals "
     ELSE ""
Ivs(e) == CASE e.op = "itree" -> Nobody [] e.op = "iadd" -> With(iv, e.id, << e.lo, e.hi >>) [] e.op = "idel" -> Less(iv, e.id) [] OTHER -> iv

\* ------------------------------------------------------------ hashing
\* entries [id, b, keys]: what a query may find shares a key (or bin), what meets the query's box it must find
HashWhy(e) ==
  LET B == SetOf(bag)
      K == SetOf(e.keys)
      Mod(S) == { k % hash.bins : k \in S }
      sparse == { x.id : x \in { y \in B : SetOf(y.keys) \cap K # {} } }
  IN IF e.op = "hask" /\ ~(SetOf(e.sparse) = sparse /\ Len(e.sparse) = Cardinality(sparse)) THEN "the sparse table's answer is not what shares a cell "
     ELSE IF e.op = "hask" /\ ~(SetOf(e.simple) = { x.id : x \in { y \in B : Mod(SetOf(y.keys)) \cap Mod(K) # {} } } /\ Len(e.simple) = Cardinality(SetOf(e.simple))) THEN "the table's answer is not what shares a bin "
     ELSE IF \E x \in B : Meet(x.b, e.b) /\ Meet(x.b, hash.b) /\ SetOf(x.keys) \cap K = {} THEN "boxes that meet share no cell "
     ELSE ""
\* ------------------------------------------------------------ Morton codes
MortonWhy(e) ==
  LET u(k) == (e.p[k] -- e.b[1][k]) // (e.b[2][k] -- e.b[1][k])
      at(q, n, k) == LET x == u(k) ** R(n) IN \/ (R(q) -- RQ(1, 1000000)) \preceq x /\ x \preceq (R(q + 1) ++ RQ(1, 1000000))
  IN IF e.high # 0 \/ e.high60 # 0 THEN "code too long "
     ELSE IF \E k \in 1..3 : ~at(e.q10[k], 1024, k) \/ ~at(e.s10[k], 1024, k) \/ ~at(e.q20[k], 1048576, k) THEN "the code is not the cell's "
     ELSE ""
Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
TreeOps == {"tree", "init", "insert", "remove", "move", "touch", "set", "balance", "refit", "clear"}
Why(e) == CASE Fatal(e) -> e.op
            [] e.op = "move" /\ e.ret # Moved(e) -> "update's answer is wrong "
            [] e.op \in TreeOps -> TreeWhy(e, Live(e), Dirt(e))
            [] e.op \in {"itree", "iadd", "idel", "iask"} -> ITreeWhy(e, Ivs(e))
            [] e.op \in {"hput", "hdel", "hask"} -> HashWhy(e)
            [] e.op = "morton" -> MortonWhy(e)
            [] OTHER -> ""
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         y == Why(e)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y >>) ELSE TRUE
        /\ i' = IF y # "" THEN Len(T[h].ev) + 1 ELSE i + 1
        /\ CASE e.op \in TreeOps -> live' = Live(e) /\ dirty' = Dirt(e) /\ UNCHANGED << iv, bag, hash >>
             [] e.op \in {"itree", "iadd", "idel"} -> iv' = Ivs(e) /\ UNCHANGED << live, dirty, bag, hash >>
             [] e.op = "hash" -> hash' = e /\ bag' = << >> /\ UNCHANGED << live, dirty, iv >>
             [] e.op = "hput" -> bag' = Append(bag, [id |-> e.id, b |-> e.b, keys |-> e.keys]) /\ UNCHANGED << live, dirty, iv, hash >>
             [] e.op = "hdel" -> bag' = SelectSeq(bag, LAMBDA x : x.id # e.id) /\ UNCHANGED << live, dirty, iv, hash >>
             [] e.op = "hclear" -> bag' = << >> /\ UNCHANGED << live, dirty, iv, hash >>
             [] OTHER -> UNCHANGED << live, dirty, iv, bag, hash >>
  /\ UNCHANGED h
=============================================================================
