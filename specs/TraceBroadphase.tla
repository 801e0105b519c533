-------------------------- MODULE TraceBroadphase ---------------------------
(***************************************************************************)
(* Conformance: every history recorded from the implementation must be a   *)
(* behaviour of Broadphase.  Each recorded call is one step; its arguments *)
(* drive the state machine and its result is judged against the state.     *)
(***************************************************************************)
EXTENDS Broadphase, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

\* mem[m] : object -> box, for the two managers of a history
VARIABLES h, i, mem, bad
tvars == << h, i, mem, bad >>

TInit == /\ h \in 1..Len(T)
         /\ i = 1
         /\ mem = << << >>, << >> >>
         /\ bad = ""
         /\ reg = {} /\ box = << >> /\ known = << >>

Upd(f, ids, bx) == [o \in (DOMAIN f) \cup Range(ids) |->
    IF o \in Range(ids) THEN bx[CHOOSE k \in 1..Len(ids) : ids[k] = o /\ \A q \in k+1..Len(ids) : ids[q] # o] ELSE f[o]]
Drop(f, o) == [p \in DOMAIN f \ {o} |-> f[p]]

Apply(e) ==
  CASE e.op \in {"reg", "reg1", "upd"} -> [mem EXCEPT ![e.m + 1] = Upd(@, e.ids, e.bx)]
    [] e.op = "unreg" -> [mem EXCEPT ![e.m + 1] = Drop(@, e.o)]
    [] e.op = "clear" -> [mem EXCEPT ![e.m + 1] = << >>]
    [] OTHER -> mem

SelfAll(M) == UNION { { PairD(M[a], M[b], Surplus(a) + Surplus(b)) : b \in { c \in DOMAIN M : a < c } } : a \in DOMAIN M }
ObjAll(M, q) == { PairD(M[a], q, Surplus(a) + SurplusQ) : a \in DOMAIN M }
MMAll(M1, M2) == UNION { { PairD(M1[a], M2[b], Surplus(a) + Surplus(b)) : b \in DOMAIN M2 } : a \in DOMAIN M1 }

Why(e) ==
  LET M == mem[e.m + 1]
      O == mem[2 - e.m]
      P == Range(e.pairs)
  IN CASE e.op = "self" -> SelfWhy(DOMAIN M, M, e.pairs, e.stop)
       [] e.op = "obj"  -> ObjWhy(DOMAIN M, M, e.q, e.pairs, e.stop)
       [] e.op = "mm"   -> MMWhy(DOMAIN M, M, DOMAIN O, O, e.pairs, e.stop)
       [] e.op = "dself" -> DistWhy(Len(e.pairs), e.best, e.mode, e.after, SelfAll(M),
                              \A p \in P : p[1] # p[2] /\ p[1] \in DOMAIN M /\ p[2] \in DOMAIN M)
       [] e.op = "dobj" -> DistWhy(Len(e.pairs), e.best, e.mode, e.after, ObjAll(M, e.q),
                              \A p \in P : IF p[1] = -1 THEN p[2] \in DOMAIN M ELSE p[2] = -1 /\ p[1] \in DOMAIN M)
       [] e.op = "dmm"  -> DistWhy(Len(e.pairs), e.best, e.mode, e.after, MMAll(M, O),
                              \A p \in P : \/ p[1] \in DOMAIN M /\ p[2] \in DOMAIN O
                                           \/ p[2] \in DOMAIN M /\ p[1] \in DOMAIN O)
       [] e.op = "obs" -> IF Range(e.objs) # DOMAIN M \/ Len(e.objs) # Cardinality(DOMAIN M)
                            THEN "getObjects is not the set of registered objects"
                          ELSE IF e.size # Cardinality(DOMAIN M) THEN "size is wrong"
                          ELSE IF e.empty # (DOMAIN M = {}) THEN "empty() is wrong"
                          ELSE ""
       [] OTHER -> ""
\* a crash, a hang or an exception is no behaviour of the specification
Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}

TNext == /\ i <= Len(T[h].ev) /\ bad = ""
         /\ LET e == T[h].ev[i]
                w == IF Fatal(e) THEN e.op ELSE Why(e)
            IN /\ bad' = w
               /\ mem' = IF w = "" /\ ~Fatal(e) THEN Apply(e) ELSE mem
               /\ IF w # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, w >>) ELSE TRUE
         /\ i' = i + 1
         /\ UNCHANGED << h, reg, box, known >>
TSpec == TInit /\ [][TNext]_<< tvars, bvars >>
=============================================================================
