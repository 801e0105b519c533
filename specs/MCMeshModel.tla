----------------------------- MODULE MCMeshModel -----------------------------
(***************************************************************************)
(* The life of a model explored exhaustively for small models; with Gen  *)
(* it also prints, for every transition of the reachable graph, a shortest *)
(* path to its source followed by the operation: histories that together   *)
(* exercise every operation in every reachable state (VIEW drops the path).*)
(***************************************************************************)
EXTENDS MeshModel, TLC
CONSTANTS Points, MaxV, MaxT, Gen
VARIABLES m, path
Ops ==
  { [n |-> "begin", ps |-> << >>, ts |-> << >>] } \cup { [n |-> "end", ps |-> << >>, ts |-> << >>] }
  \cup { [n |-> k, ps |-> << p >>, ts |-> << >>] : k \in {"addv", "repv", "updv"}, p \in Points }
  \cup { [n |-> "addt", ps |-> << p, p, p >>, ts |-> << << 0, 1, 2 >> >>] : p \in Points }
  \cup { [n |-> k, ps |-> << p, p, p >>, ts |-> << >>] : k \in {"rept", "updt"}, p \in Points }
  \cup { [n |-> k, ps |-> << p, p >>, ts |-> << >>] : k \in {"adds", "reps", "upds"}, p \in Points }
  \cup { [n |-> "addst", ps |-> << p, p, p, p >>, ts |-> << << 0, 1, 2 >>, << 3, 0, 2 >> >>] : p \in Points }
  \cup { [n |-> k, ps |-> << >>, ts |-> << >>] : k \in {"brep", "bupd", "copy", "ereprb", "erepbt", "erepnn", "eupdrb", "eupdbt", "eupdnn"} }
Do(x, o) ==
  CASE o.n = "begin" -> Begin(x)
    [] o.n \in {"addv", "addt", "adds", "addst"} -> Add(x, o.ps, o.ts)
    [] o.n = "end" -> End(x)
    [] o.n = "brep" -> BeginReplace(x)
    [] o.n = "bupd" -> BeginUpdate(x)
    [] o.n \in {"repv", "rept", "reps"} -> Replace(x, o.ps)
    [] o.n \in {"updv", "updt", "upds"} -> Update(x, o.ps)
    [] o.n \in {"ereprb", "erepbt", "erepnn"} -> EndReplace(x)
    [] o.n \in {"eupdrb", "eupdbt", "eupdnn"} -> EndUpdate(x)
    [] o.n = "copy" -> Ret(x, OK)
Init == m = Blank /\ path = ""
Next == \E o \in Ops :
  LET r == Do(m, o) IN
  /\ Len(r.m.verts) <= MaxV /\ Len(r.m.tris) <= MaxT
  /\ m' = r.m
  /\ path' = path \o o.n \o ";"
  /\ Gen => PrintT("GEN " \o path')
ModelView == m
Inv == Consistent(m)
\* a refused operation changes nothing (but beginModel clears)
Refusal == [][\A o \in Ops : LET r == Do(m, o) IN (r.ret # OK /\ o.n # "begin") => r.m = m]_m
\* from anywhere two beginModel give a fresh model
Restart == LET a == Begin(m).m IN (IF a.st = "BEGUN" THEN m.st = "EMPTY" ELSE Begin(a).m = [Blank EXCEPT !.st = "BEGUN"])
=============================================================================
