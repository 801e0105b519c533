------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Real numbers for TLC.  TLC evaluates integers only (32 bits), and the   *)
(* implementation works on IEEE doubles, so a real number is represented   *)
(* by the pair <<hi, lo>> of the two 32-bit halves of a double: traces     *)
(* therefore carry the implementation's numbers exactly.  The operators    *)
(* below denote the ordinary operations of real arithmetic; java/fclv/     *)
(* Overrides.java evaluates them for TLC in double precision.  Every       *)
(* specification that uses them compares with an explicit tolerance that   *)
(* is many orders of magnitude above the rounding error.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Real == Int \X Int

\* scalars (evaluated by the override)
R(n)       == CHOOSE r \in Real : TRUE      \* the integer n
RQ(n, d)   == CHOOSE r \in Real : TRUE      \* the rational n/d
RAdd(a, b) == CHOOSE r \in Real : TRUE
RSub(a, b) == CHOOSE r \in Real : TRUE
RMul(a, b) == CHOOSE r \in Real : TRUE
RDiv(a, b) == CHOOSE r \in Real : TRUE
RNeg(a)    == CHOOSE r \in Real : TRUE
RAbs(a)    == CHOOSE r \in Real : TRUE
RSqrt(a)   == CHOOSE r \in Real : TRUE
RSin(a)    == CHOOSE r \in Real : TRUE
RCos(a)    == CHOOSE r \in Real : TRUE
RMin(a, b) == CHOOSE r \in Real : TRUE
RMax(a, b) == CHOOSE r \in Real : TRUE
RLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE   \* FALSE when either is not a number
RLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE
RFin(a)    == CHOOSE r \in BOOLEAN : TRUE   \* a is a finite number
RStr(a)    == CHOOSE s \in STRING : TRUE    \* for diagnostics only
RFloor(a)  == CHOOSE n \in Int : TRUE       \* the integer part, when it fits 32 bits

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \preceq b == RLe(a, b)
a \prec b   == RLt(a, b)

Zero == R(0)
One  == R(1)
Two  == R(2)

\* vectors are triples of reals, matrices triples of rows
VAdd(u, v)   == << u[1] ++ v[1], u[2] ++ v[2], u[3] ++ v[3] >>
VSub(u, v)   == << u[1] -- v[1], u[2] -- v[2], u[3] -- v[3] >>
VNeg(u)      == << RNeg(u[1]), RNeg(u[2]), RNeg(u[3]) >>
VScale(s, u) == << s ** u[1], s ** u[2], s ** u[3] >>
VDot(u, v)   == ((u[1] ** v[1]) ++ (u[2] ** v[2])) ++ (u[3] ** v[3])
VCross(u, v) == << (u[2] ** v[3]) -- (u[3] ** v[2]),
                   (u[3] ** v[1]) -- (u[1] ** v[3]),
                   (u[1] ** v[2]) -- (u[2] ** v[1]) >>
VNorm(u)     == RSqrt(VDot(u, u))
VDist(u, v)  == VNorm(VSub(u, v))
VFin(u)      == RFin(u[1]) /\ RFin(u[2]) /\ RFin(u[3])
MulMV(M, v)  == << VDot(M[1], v), VDot(M[2], v), VDot(M[3], v) >>
MulMTV(M, v) == VAdd(VAdd(VScale(v[1], M[1]), VScale(v[2], M[2])), VScale(v[3], M[3]))
VZero        == << Zero, Zero, Zero >>
VI(x, y, z)  == << R(x), R(y), R(z) >>

\* extrema over non-empty sequences of reals / of projections
RECURSIVE RSeqMax(_), RSeqMin(_)
RSeqMax(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], RSeqMax(Tail(s)))
RSeqMin(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], RSeqMin(Tail(s)))
\* max / min over a sequence of points of the dot product with n
MaxDot(n, P) == RSeqMax([i \in 1..Len(P) |-> VDot(n, P[i])])
MinDot(n, P) == RSeqMin([i \in 1..Len(P) |-> VDot(n, P[i])])

\* the first index that attains the maximum
ArgMaxDot(n, P) == CHOOSE i \in 1..Len(P) : /\ VDot(n, P[i]) = MaxDot(n, P)
                                            /\ \A j \in 1..(i - 1) : VDot(n, P[j]) # MaxDot(n, P)

RNear(a, b, tol) == RAbs(a -- b) \preceq tol
VNear(u, v, tol) == VDist(u, v) \preceq tol
=============================================================================
