----------------------------- MODULE MCRedBlack -----------------------------
(***************************************************************************)
(* The interval tree as an algorithm: a red-black tree ordered by the lower*)
(* ends of its intervals, every node knowing the largest upper end below   *)
(* it, kept up to date by rotations and by walking up from where something *)
(* changed.  Checked for every sequence of insertions and deletions of a   *)
(* few intervals (equal keys included): order, links, balance, maxima.     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Ids, Keys, Highs
VARIABLES t, live
vars == << t, live >>
\* t.n: node -> [l, r, p, red, max]; t.rt the root; 0 is no node; t.iv: node -> interval
Empty == [n |-> [q \in {} |-> 0], rt |-> 0, iv |-> [q \in {} |-> 0]]
Max(a, b) == IF a > b THEN a ELSE b
MaxOf(s, x) == IF x = 0 THEN 0 ELSE s.n[x].max
Fresh(s, x) == [s EXCEPT !.n[x].max = Max(s.iv[x][2], Max(MaxOf(s, s.n[x].l), MaxOf(s, s.n[x].r)))]
IsRed(s, x) == x # 0 /\ s.n[x].red
Paint(s, x, c) == IF x = 0 THEN s ELSE [s EXCEPT !.n[x].red = c]
SetP(s, x, p) == IF x = 0 THEN s ELSE [s EXCEPT !.n[x].p = p]
\* y takes the place of x below x's parent
Hang(s, x, y) == LET p == s.n[x].p
                     a == IF p = 0 THEN [s EXCEPT !.rt = y] ELSE IF s.n[p].l = x THEN [s EXCEPT !.n[p].l = y] ELSE [s EXCEPT !.n[p].r = y]
                 IN SetP(a, y, p)
LRot(s, x) == LET y == s.n[x].r
                  a == Hang(s, x, y)
                  b == SetP([a EXCEPT !.n[x].r = s.n[y].l], s.n[y].l, x)
              IN Fresh(Fresh([b EXCEPT !.n[y].l = x, !.n[x].p = y], x), y)
RRot(s, x) == LET y == s.n[x].l
                  a == Hang(s, x, y)
                  b == SetP([a EXCEPT !.n[x].l = s.n[y].r], s.n[y].r, x)
              IN Fresh(Fresh([b EXCEPT !.n[y].r = x, !.n[x].p = y], x), y)
RECURSIVE Up(_, _)
Up(s, x) == IF x = 0 THEN s ELSE LET a == Fresh(s, x) IN Up(a, a.n[x].p)
RECURSIVE Place(_, _, _)
Place(s, x, at) == IF s.iv[at][1] > s.iv[x][1]
                   THEN IF s.n[at].l = 0 THEN [s EXCEPT !.n[at].l = x, !.n[x].p = at] ELSE Place(s, x, s.n[at].l)
                   ELSE IF s.n[at].r = 0 THEN [s EXCEPT !.n[at].r = x, !.n[x].p = at] ELSE Place(s, x, s.n[at].r)
RECURSIVE InsFix(_, _)
InsFix(s, z) ==
  LET p == s.n[z].p IN
  IF ~IsRed(s, p) THEN Paint(s, s.rt, FALSE)
  ELSE LET g == s.n[p].p
           left == s.n[g].l = p
           u == IF left THEN s.n[g].r ELSE s.n[g].l
       IN IF IsRed(s, u) THEN InsFix(Paint(Paint(Paint(s, p, FALSE), u, FALSE), g, TRUE), g)
          ELSE LET inner == IF left THEN s.n[p].r = z ELSE s.n[p].l = z
                   a == IF inner THEN (IF left THEN LRot(s, p) ELSE RRot(s, p)) ELSE s
                   q == IF inner THEN z ELSE p
                   b == Paint(Paint(a, q, FALSE), g, TRUE)
               IN Paint((IF left THEN RRot(b, g) ELSE LRot(b, g)), (IF left THEN RRot(b, g) ELSE LRot(b, g)).rt, FALSE)
InsertT(s, x, v) ==
  LET a == [n |-> (x :> [l |-> 0, r |-> 0, p |-> 0, red |-> TRUE, max |-> v[2]]) @@ s.n, rt |-> s.rt, iv |-> (x :> v) @@ s.iv]
      b == IF s.rt = 0 THEN [a EXCEPT !.rt = x] ELSE Place(a, x, s.rt)
  IN InsFix(Up(b, x), x)
RECURSIVE First(_, _)
First(s, x) == IF s.n[x].l = 0 THEN x ELSE First(s, s.n[x].l)
RECURSIVE DelFix(_, _, _)
DelFix(s, x, p) ==       \* the subtree x below p is one black node short
  IF p = 0 \/ IsRed(s, x) THEN Paint(s, x, FALSE)
  ELSE LET left == s.n[p].l = x
           Rot(z, q) == IF left THEN LRot(z, q) ELSE RRot(z, q)     \* towards x
           Tor(z, q) == IF left THEN RRot(z, q) ELSE LRot(z, q)
           w0 == IF left THEN s.n[p].r ELSE s.n[p].l
           a == IF IsRed(s, w0) THEN Rot(Paint(Paint(s, w0, FALSE), p, TRUE), p) ELSE s
           w == IF left THEN a.n[p].r ELSE a.n[p].l
           far == IF left THEN a.n[w].r ELSE a.n[w].l
           near == IF left THEN a.n[w].l ELSE a.n[w].r
       IN IF ~IsRed(a, far) /\ ~IsRed(a, near) THEN DelFix(Paint(a, w, TRUE), p, a.n[p].p)
          ELSE LET b == IF IsRed(a, far) THEN a ELSE Tor(Paint(Paint(a, near, FALSE), w, TRUE), w)
                   v == IF left THEN b.n[p].r ELSE b.n[p].l
                   f == IF left THEN b.n[v].r ELSE b.n[v].l
                   c == Paint(Paint(Paint(b, v, b.n[p].red), p, FALSE), f, FALSE)
               IN Rot(c, p)
Without(s, z) == [n |-> [q \in DOMAIN s.n \ {z} |-> s.n[q]], rt |-> s.rt, iv |-> [q \in DOMAIN s.iv \ {z} |-> s.iv[q]]]
DeleteT(s, z) ==
  IF s.n[z].l = 0 \/ s.n[z].r = 0
  THEN LET x == IF s.n[z].l = 0 THEN s.n[z].r ELSE s.n[z].l
           p == s.n[z].p
           a == Up(Without(Hang(s, z, x), z), p)
       IN IF s.n[z].red THEN a ELSE DelFix(a, x, p)
  ELSE LET y == First(s, s.n[z].r)          \* the successor takes z's place
           x == s.n[y].r
           p == IF s.n[y].p = z THEN y ELSE s.n[y].p
           a == IF s.n[y].p = z THEN s ELSE LET b == Hang(s, y, x) IN SetP([b EXCEPT !.n[y].r = s.n[z].r], s.n[z].r, y)
           c == Hang(a, z, y)
           d == SetP([c EXCEPT !.n[y].l = s.n[z].l, !.n[y].red = s.n[z].red], s.n[z].l, y)
           e == Up(Without(d, z), p)
       IN IF s.n[y].red THEN e ELSE DelFix(e, x, p)
Ivs == { << a, b >> \in Keys \X Highs : a <= b }
Init == t = Empty /\ live = {}
Insert(x, v) == x \notin live /\ (\A y \in Ids : y < x => y \in live) /\ live' = live \cup {x} /\ t' = InsertT(t, x, v)
Delete(x) == x \in live /\ t' = DeleteT(t, x) /\ live' = live \ {x}
Next == (\E x \in Ids, v \in Ivs : Insert(x, v)) \/ \E x \in live : Delete(x)
Spec == Init /\ [][Next]_vars
RECURSIVE Below(_), Blacks(_)
Below(x) == IF x = 0 THEN {} ELSE {x} \cup Below(t.n[x].l) \cup Below(t.n[x].r)
Blacks(x) == IF x = 0 THEN 1 ELSE LET a == Blacks(t.n[x].l) IN IF a = 0 \/ a # Blacks(t.n[x].r) THEN 0 ELSE a + (IF t.n[x].red THEN 0 ELSE 1)
Order == Below(t.rt) = live /\ \A x \in live : (\A y \in Below(t.n[x].l) : t.iv[y][1] <= t.iv[x][1]) /\ (\A y \in Below(t.n[x].r) : t.iv[y][1] >= t.iv[x][1])
Links == \A x \in live : (t.n[x].l # 0 => t.n[t.n[x].l].p = x) /\ (t.n[x].r # 0 => t.n[t.n[x].r].p = x)
Balance == (live # {} => t.n[t.rt].p = 0) /\ ~IsRed(t, t.rt) /\ Blacks(t.rt) # 0 /\ \A x \in live : t.n[x].red => ~IsRed(t, t.n[x].l) /\ ~IsRed(t, t.n[x].r)
Maxima == \A x \in live : t.n[x].max = Max(t.iv[x][2], Max(MaxOf(t, t.n[x].l), MaxOf(t, t.n[x].r)))
=============================================================================
