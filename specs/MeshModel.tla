------------------------------ MODULE MeshModel ------------------------------
(***************************************************************************)
(* The life of a mesh / point-cloud model: building, replacing the current *)
(* frame, updating to a next frame while remembering the previous one.     *)
(*                                                                         *)
(* A model is a record                                                     *)
(*   st    EMPTY, BEGUN, PROCESSED, REPLACING, UPDATING, UPDATED           *)
(*   verts the vertices of the current frame     tris  index triples       *)
(*   prev  the vertices of the previous frame (while one is remembered)    *)
(*   fresh the vertices supplied since a replacement or update began       *)
(* Every operation returns a code; a refused operation changes nothing,    *)
(* except that beginModel on a used model clears it.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

OK == 0
OutOfSequence == -2
EmptyModel == -3
EmptyPrevious == -4
IncorrectData == -7

Blank == [st |-> "EMPTY", verts |-> << >>, tris |-> << >>, prev |-> << >>, fresh |-> << >>]
Ret(m, c) == [m |-> m, ret |-> c]

Begin(m) == IF m.st = "EMPTY" THEN Ret([m EXCEPT !.st = "BEGUN"], OK) ELSE Ret(Blank, OutOfSequence)
\* add points ps and triangles ts (indices relative to the first point added)
Add(m, ps, ts) ==
  IF m.st # "BEGUN" THEN Ret(m, OutOfSequence)
  ELSE LET o == Len(m.verts)
       IN Ret([m EXCEPT !.verts = @ \o ps,
                        !.tris = @ \o [k \in 1..Len(ts) |-> << ts[k][1] + o, ts[k][2] + o, ts[k][3] + o >>]], OK)
End(m) == IF m.st # "BEGUN" THEN Ret(m, OutOfSequence)
          ELSE IF m.verts = << >> /\ m.tris = << >> THEN Ret(m, EmptyModel)
          ELSE Ret([m EXCEPT !.st = "PROCESSED"], OK)
BeginReplace(m) == IF m.st \notin {"PROCESSED", "UPDATED"} THEN Ret(m, EmptyPrevious)
                   ELSE Ret([m EXCEPT !.st = "REPLACING", !.prev = << >>, !.fresh = << >>], OK)
BeginUpdate(m) == IF m.st \notin {"PROCESSED", "UPDATED"} THEN Ret(m, EmptyPrevious)
                  ELSE Ret([m EXCEPT !.st = "UPDATING", !.prev = m.verts, !.fresh = << >>], OK)
Supply(m, during, ps) == IF m.st # during THEN Ret(m, OutOfSequence)
                         ELSE IF Len(m.fresh) + Len(ps) > Len(m.verts) THEN Ret(m, IncorrectData)
                         ELSE Ret([m EXCEPT !.fresh = @ \o ps], OK)
Finish(m, during, st) == IF m.st # during THEN Ret(m, OutOfSequence)
                         ELSE IF Len(m.fresh) # Len(m.verts) THEN Ret(m, IncorrectData)
                         ELSE Ret([m EXCEPT !.st = st, !.verts = m.fresh, !.fresh = << >>], OK)
Replace(m, ps) == Supply(m, "REPLACING", ps)
EndReplace(m)  == Finish(m, "REPLACING", "PROCESSED")
Update(m, ps)  == Supply(m, "UPDATING", ps)
EndUpdate(m)   == Finish(m, "UPDATING", "UPDATED")

\* what can be observed
Kind(m) == IF m.verts = << >> THEN "unknown" ELSE IF m.tris = << >> THEN "points" ELSE "triangles"
Prims(m) == IF m.tris = << >> THEN Len(m.verts) ELSE Len(m.tris)
Built(m) == m.st \notin {"EMPTY", "BEGUN"}
NumBVs(m) == IF Built(m) THEN (2 * Prims(m)) - 1 ELSE 0
Settled(m) == m.st \in {"PROCESSED", "UPDATED"}

Consistent(m) ==
  /\ m.prev # << >> => m.st \in {"UPDATING", "UPDATED"} /\ Len(m.prev) = Len(m.verts)
  /\ m.st \in {"UPDATING", "UPDATED"} => m.prev # << >>
  /\ m.fresh # << >> => m.st \in {"REPLACING", "UPDATING"}
  /\ Len(m.fresh) <= Len(m.verts)
  /\ \A k \in 1..Len(m.tris) : \A j \in 1..3 : m.tris[k][j] \in 0..(Len(m.verts) - 1)
  /\ Built(m) => m.verts # << >>
=============================================================================
