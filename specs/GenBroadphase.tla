---------------------------- MODULE GenBroadphase ---------------------------
(***************************************************************************)
(* Behaviours of Broadphase for two managers, printed as command histories *)
(* for the conformance harness (run with TLC -simulate).  The guards are   *)
(* those of the state machine: queries only when every registered object   *)
(* is known to its manager, unregistration of known objects only.          *)
(***************************************************************************)
EXTENDS Broadphase

CONSTANTS Len0, Cap, DistQ    \* length of a history, objects per manager, distance queries?
VARIABLES mem, ready, nxt, log, rnd
gvars == << mem, ready, nxt, log, rnd >>

\* draws: a fixed function of the state variable rnd, so that an expression
\* has one value however often TLC evaluates it
Hsh(k) == (((((rnd + k * 7919) % 65521) * 30011 + k * 104729) % 65521) * 24571 + 977) % 65521
D(k, lo, hi) == lo + ((Hsh(k) \div 7) % (hi - lo + 1))
Pick(k, S) == LET n == D(k, 1, Cardinality(S)) IN CHOOSE x \in S : Cardinality({ y \in S : y <= x }) = n

Iv(k, r, s) == LET a == D(k, -r, r) IN << a, a + D(k + 1, 0, s) >>
Mk(x, y, z) == << x[1], y[1], z[1], x[2], y[2], z[2] >>
NewBox(k) == LET c == D(k, 1, 6) IN
  CASE c = 1 -> Mk(Iv(k + 1, 6, 4), Iv(k + 3, 6, 4), Iv(k + 5, 6, 4))
    [] c = 2 -> Mk(Iv(k + 1, 3, 1), Iv(k + 3, 3, 1), Iv(k + 5, 3, 1))
    [] c = 3 -> LET g == D(k + 1, -3, 3) IN Mk(<< 2 * g, 2 * g + 2 >>, Iv(k + 3, 2, 2), << 0, 2 >>)
    [] c = 4 -> Mk(Iv(k + 1, 8, 0), Iv(k + 3, 2, 3), Iv(k + 5, 2, 3))
    [] c = 5 -> LET g == D(k + 1, 0, 6) IN Mk(<< -g, g >>, << -g, g >>, << -g, g >>)
    [] OTHER -> Mk(Iv(k + 1, 20, 9), Iv(k + 3, 20, 9), Iv(k + 5, 20, 9))
\* a box near an old one
Nudge(q, b) == LET k == D(q, 1, 3)
                   d == D(q + 1, -4, 4)
                   e == D(q + 2, 0, 3)
                   c == D(q + 3, 1, 3)
               IN CASE c = 1 -> [b EXCEPT ![k] = @ + d, ![k + 3] = @ + d]
                    [] c = 2 -> [b EXCEPT ![k + 3] = @ + e]
                    [] OTHER -> [b EXCEPT ![k] = @ - e]

N(x) == ToString(x)
BS(b) == N(b[1]) \o " " \o N(b[2]) \o " " \o N(b[3]) \o " " \o N(b[4]) \o " " \o N(b[5]) \o " " \o N(b[6])
Say(s) == log' = Append(log, s) /\ rnd' = (rnd * 15731 + 5003) % 65521

GInit == /\ mem = << << >>, << >> >> /\ ready = << TRUE, TRUE >> /\ nxt = << 1, 501 >> /\ log = << >> /\ rnd \in 1..4000
         /\ reg = {} /\ box = << >> /\ known = << >>

Card(m) == Cardinality(DOMAIN mem[m])
GRegister == \E m \in 1..2 : \E how \in {"reg", "reg1"} :
  /\ Card(m) < Cap
  /\ LET n == D(1, 1, 3)
         bx == [q \in 1..n |-> NewBox(10 * q)]
     IN /\ mem' = [mem EXCEPT ![m] = [o \in nxt[m]..(nxt[m] + n - 1) |-> bx[o - nxt[m] + 1]] @@ @]
        /\ nxt' = [nxt EXCEPT ![m] = @ + n]
        /\ ready' = [ready EXCEPT ![m] = FALSE]
        /\ Say(how \o " " \o N(m - 1) \o " " \o N(n)
               \o (IF n >= 1 THEN " " \o N(nxt[m]) \o " " \o BS(bx[1]) ELSE "")
               \o (IF n >= 2 THEN " " \o N(nxt[m] + 1) \o " " \o BS(bx[2]) ELSE "")
               \o (IF n >= 3 THEN " " \o N(nxt[m] + 2) \o " " \o BS(bx[3]) ELSE ""))
GSetup == \E m \in 1..2 : ~ready[m] /\ ready' = [ready EXCEPT ![m] = TRUE] /\ Say("setup " \o N(m - 1)) /\ UNCHANGED << mem, nxt >>
GUnreg == \E m \in 1..2 : ready[m] /\ mem[m] # << >> /\
  LET o == Pick(2, DOMAIN mem[m])
  IN /\ mem' = [mem EXCEPT ![m] = [p \in DOMAIN @ \ {o} |-> @[p]]]
     /\ Say("unreg " \o N(m - 1) \o " " \o N(o) \o (IF D(3, 1, 2) = 1 THEN " gone" ELSE ""))
     /\ UNCHANGED << ready, nxt >>
GMove == \E m \in 1..2 : \E how \in {"upd1", "updN", "updA"} : ready[m] /\ mem[m] # << >> /\
  LET o == Pick(2, DOMAIN mem[m])
      b == IF D(4, 1, 3) = 1 THEN NewBox(20) ELSE Nudge(5, mem[m][o])
  IN /\ mem' = [mem EXCEPT ![m] = [@ EXCEPT ![o] = b]]
     /\ Say(how \o " " \o N(m - 1) \o " 1 " \o N(o) \o " " \o BS(b))
     /\ UNCHANGED << ready, nxt >>
GClear == \E m \in 1..2 : /\ D(6, 1, 4) = 1
  /\ mem' = [mem EXCEPT ![m] = << >>] /\ ready' = [ready EXCEPT ![m] = TRUE]
  /\ Say("clear " \o N(m - 1)) /\ UNCHANGED nxt
GQuery == \E m \in 1..2 : ready[1] /\ ready[2] /\ UNCHANGED << mem, ready, nxt >> /\
  LET q == IF mem[m] # << >> /\ D(7, 1, 2) = 1 THEN Nudge(30, mem[m][Pick(9, DOMAIN mem[m])]) ELSE NewBox(40)
      stop == << 0, 0, 0, 1, 2, 3 >>[D(11, 1, 6)]
      d == IF DistQ THEN "d" ELSE ""
      md == IF DistQ THEN D(12, 0, 1) ELSE stop
  IN \/ Say(d \o "self " \o N(m - 1) \o " " \o N(md))
     \/ Say(d \o "obj " \o N(m - 1) \o " " \o N(md) \o " " \o BS(q))
     \/ Say(d \o "mm " \o N(m - 1) \o " " \o N(md))
     \/ Say(d \o "mms " \o N(m - 1) \o " " \o N(md))
GObs == \E m \in 1..2 : Say("obs " \o N(m - 1)) /\ UNCHANGED << mem, ready, nxt >>

RECURSIVE Flat(_, _)
Flat(s, k) == IF k > Len(s) THEN "" ELSE s[k] \o ";" \o Flat(s, k + 1)
GNext == /\ UNCHANGED bvars
         /\ IF Len(log) >= Len0 THEN /\ Len(log) = Len0
                                     /\ PrintT("GEN " \o Flat(log, 1))
                                     /\ log' = Append(log, "") /\ UNCHANGED << rnd, mem, ready, nxt >>
            ELSE GRegister \/ GSetup \/ GUnreg \/ GMove \/ GClear \/ GQuery \/ GQuery \/ GObs
=============================================================================
