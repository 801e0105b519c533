----------------------------- MODULE TraceMesh -------------------------------
(***************************************************************************)
(* Conformance of recorded model histories (harness bvh): return codes and *)
(* observations against MeshModel, bounding volume hierarchies against     *)
(* the set of primitives they must index.                                  *)
(***************************************************************************)
EXTENDS MeshModel, BV, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, m
tvars == << h, i, m >>
TInit == h \in 1..Len(T) /\ i = 1 /\ m = Blank

Step(e) ==
  CASE e.op = "begin" -> Begin(m)
    [] e.op = "add" -> Add(m, e.ps, e.ts)
    [] e.op = "end" -> End(m)
    [] e.op = "brep" -> BeginReplace(m)
    [] e.op = "bupd" -> BeginUpdate(m)
    [] e.op = "rep" -> Replace(m, e.ps)
    [] e.op = "upd" -> Update(m, e.ps)
    [] e.op = "erep" -> EndReplace(m)
    [] e.op = "eupd" -> EndUpdate(m)
    [] OTHER -> Ret(m, OK)

\* ------------------------------------------------------------------ observations
StateName == << "EMPTY", "BEGUN", "PROCESSED", "UPDATING", "UPDATED", "REPLACING" >>
ObsWhy(e) ==
  IF StateName[e.st + 1] # m.st THEN "build state"
  ELSE IF e.nv # Len(m.verts) \/ e.nt # Len(m.tris) THEN "number of vertices or triangles"
  ELSE IF e.kind # Kind(m) THEN "model type"
  ELSE IF e.nb # NumBVs(m) THEN "number of bounding volumes"
  ELSE IF e.tris # m.tris THEN "triangles"
  ELSE IF m.st \in {"BEGUN", "PROCESSED", "UPDATED"} /\ e.verts # m.verts THEN "vertices"
  ELSE IF m.st \in {"UPDATING", "UPDATED"} /\ e.prev # m.prev THEN "vertices of the previous frame"
  ELSE IF m.st \notin {"UPDATING", "UPDATED"} /\ e.prev # << >> THEN "a previous frame nobody recorded"
  ELSE ""

\* ------------------------------------------------------------------ hierarchy
\* nodes are 1-based here; c is the 0-based first child, or -(primitive + 1)
N(e) == Len(e.nodes)
Leaf(d) == d.c < 0
Kids(d) == IF Leaf(d) THEN {} ELSE {d.c + 1, d.c + 2}
Tree(e) ==
  /\ N(e) = NumBVs(m)
  /\ \A k \in 1..N(e) : Kids(e.nodes[k]) \subseteq 2..N(e)
  /\ \A k \in 2..N(e) : Cardinality({ p \in 1..N(e) : k \in Kids(e.nodes[p]) }) = 1
  /\ { -e.nodes[k].c - 1 : k \in { q \in 1..N(e) : Leaf(e.nodes[q]) } } = 0..(Prims(m) - 1)
  /\ Cardinality({ q \in 1..N(e) : Leaf(e.nodes[q]) }) = Prims(m)
RECURSIVE Below(_, _)
Below(e, k) == LET d == e.nodes[k] IN IF Leaf(d) THEN { -d.c - 1 } ELSE Below(e, d.c + 1) \cup Below(e, d.c + 2)
Corners(p) == IF m.tris = << >> THEN {p + 1} ELSE { m.tris[p + 1][j] + 1 : j \in 1..3 }
RECURSIVE MaxNorm(_)
MaxNorm(s) == IF s = << >> THEN Zero ELSE RMax(VNorm(s[1]), MaxNorm(Tail(s)))
Eps == RQ(1, 1000000) ** (RMax(MaxNorm(m.verts), MaxNorm(m.prev)) ++ RQ(1, 1000))
Enclosed(b, ids, e) == \A v \in ids : InBV(b, m.verts[v], e) /\ (m.prev # << >> => InBV(b, m.prev[v], e))
TreeWhy(e) ==
  IF ~Tree(e) THEN "hierarchy is not a tree over the primitives " \o e.bv
  ELSE LET eps == Eps
           \* bottom-up: the primitives below each node, checked against its volume
           bad == { k \in 1..N(e) : ~Enclosed(e.nodes[k].bv, UNION { Corners(p) : p \in Below(e, k) }, eps) }
       IN IF bad # {} THEN "a volume does not enclose its primitives " \o e.bv \o (IF \A k \in bad : Leaf(e.nodes[k]) THEN " (leaf)" ELSE "")
          ELSE ""

Fatal(e) == e.op \in {"Crash", "Hang", "Exception"}
Why(e, r) == CASE Fatal(e) -> e.op
               [] e.op = "obs" -> ObsWhy(e)
               [] e.op = "tree" -> IF Settled(m) THEN TreeWhy(e) ELSE ""
               [] e.op = "corrupt" -> "memory overwritten beyond an allocation, after " \o e.after
               [] e.op = "drop" -> IF e.live # 0 THEN "memory not released" ELSE ""
               [] e.op = "copy" -> ""
               [] OTHER -> IF e.ret # r.ret THEN "returned " \o ToString(e.ret) \o ", not " \o ToString(r.ret) ELSE ""
TNext ==
  /\ i <= Len(T[h].ev)
  /\ LET e == T[h].ev[i]
         r == Step(e)
         y == Why(e, r)
     IN /\ IF y # "" THEN PrintT(<< "NONCONFORM", T[h].id, i, e.op, y >>) ELSE TRUE
        /\ m' = r.m
        /\ i' = IF y # "" THEN Len(T[h].ev) + 1 ELSE i + 1
        /\ UNCHANGED h
=============================================================================
