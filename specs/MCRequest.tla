----------------------------- MODULE MCRequest -----------------------------
(***************************************************************************)
(* What a result may collect.  Calls find intersecting pairs of parts in   *)
(* any order; a call keeps contacts up to its limit and goes on until it is*)
(* satisfied or nothing is left; with costs wanted it visits every pair    *)
(* and keeps the nc largest cost sources.  The incremental bookkeeping is  *)
(* checked against what was found in all calls together.                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, FiniteSetsExt
CONSTANTS Pairs, Limits, NC, Calls
VARIABLES cs, costs, seen, call, todo, made, all
vars == << cs, costs, seen, call, todo, made, all >>
Idle == [on |-> FALSE, max |-> 0, cost |-> FALSE]
Cost(p) == p \div 2              \* two pairs share a cost now and then
Init == cs = << >> /\ costs = {} /\ seen = {} /\ call = Idle /\ todo = {} /\ made = 0 /\ all = {}
Satisfied(m, c) == ~c /\ Len(cs) > 0 /\ m <= Len(cs)
Start(m, c, F) == /\ ~call.on /\ made < Calls
                  /\ made' = made + 1
                  /\ call' = [on |-> ~(Satisfied(m, c) \/ m = 0), max |-> m, cost |-> c]
                  /\ todo' = F /\ seen' = {}
                  /\ UNCHANGED << cs, costs, all >>
Below(x, y) == Cost(x) < Cost(y) \/ (Cost(x) = Cost(y) /\ x < y)
Keep(S) == IF Cardinality(S) > NC THEN S \ { CHOOSE x \in S : \A y \in S \ {x} : Below(x, y) } ELSE S
Visit(p) == /\ call.on /\ p \in todo /\ ~Satisfied(call.max, call.cost)
            /\ todo' = todo \ {p} /\ seen' = seen \cup {p}
            /\ cs' = IF Len(cs) < call.max THEN Append(cs, p) ELSE cs
            /\ costs' = IF call.cost THEN Keep(costs \cup {p}) ELSE costs
            /\ all' = IF call.cost THEN all \cup {p} ELSE all
            /\ UNCHANGED << call, made >>
Finish == /\ call.on /\ (todo = {} \/ Satisfied(call.max, call.cost))
          /\ call' = [call EXCEPT !.on = FALSE]
          /\ UNCHANGED << cs, costs, seen, todo, made, all >>
Next == \/ \E m \in Limits, c \in BOOLEAN, F \in SUBSET Pairs : Start(m, c, F)
        \/ \E p \in Pairs : Visit(p)
        \/ Finish
Spec == Init /\ [][Next]_vars
\* never more cost sources than asked for, and exactly the largest of all found
Largest == /\ Cardinality(costs) = (IF Cardinality(all) < NC THEN Cardinality(all) ELSE NC)
           /\ \A x \in all \ costs : \A y \in costs : Below(x, y)
\* a call that is over either filled its limit or reported all it could
Reported == ~call.on /\ made > 0 /\ call.max > Len(cs) => todo = {} /\ seen \subseteq { cs[q] : q \in 1..Len(cs) }
\* a call adds nothing beyond its limit and takes nothing away
Grows == [][ /\ Len(cs') >= Len(cs) /\ SubSeq(cs', 1, Len(cs)) = cs
             /\ (Len(cs') > Len(cs) => Len(cs') <= call.max) ]_vars
\* with costs wanted, every pair is visited whatever the limit on contacts
Thorough == ~call.on /\ made > 0 /\ call.cost /\ call.max > 0 => todo = {}
=============================================================================
