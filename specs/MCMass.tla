------------------------------- MODULE MCMass --------------------------------
(* Mass against itself: the two ways of cutting bodies agree where both apply, *)
(* and shifting a body shifts its measures as it should.                        *)
EXTENDS Mass
CONSTANT N
VARIABLE c
IdM == << VI(1, 0, 0), VI(0, 1, 0), VI(0, 0, 1) >>
Shape(k, p) == [k |-> k, p |-> p, v |-> << >>, f |-> << >>, t |-> << >>, R |-> IdM, t0 |-> VZero]
HalfR(n) == RQ(n, 2)
BoxV(x, y, z, o) == [q \in 1..8 |-> VAdd(o, << (IF q > 4 THEN One ELSE R(-1)) ** HalfR(x), (IF ((q - 1) \div 2) % 2 = 1 THEN One ELSE R(-1)) ** HalfR(y), (IF q % 2 = 0 THEN One ELSE R(-1)) ** HalfR(z) >>)]
BoxF == << << 0, 1, 3, 2 >>, << 4, 6, 7, 5 >>, << 0, 4, 5, 1 >>, << 2, 3, 7, 6 >>, << 0, 2, 6, 4 >>, << 1, 5, 7, 3 >> >>
Cuboid(x, y, z, o) == [Shape("convex", << >>) EXCEPT !.v = BoxV(x, y, z, o), !.f = BoxF]
\* a regular prism of 48 sides: close to a cylinder
K == 48
Angle(q) == (Two ** Pi) ** RQ(q, K)
Prism(r, l) == [Shape("convex", << >>) EXCEPT !.v = [q \in 1..(2 * K) |-> << R(r) ** RCos(Angle(q)), R(r) ** RSin(Angle(q)), (IF q <= K THEN R(-1) ELSE One) ** HalfR(l) >>],
                 !.f = << [q \in 1..K |-> K - q], [q \in 1..K |-> K + q - 1] >> \o [q \in 1..K |-> << q - 1, q % K, K + (q % K), K + q - 1 >>]]
Pyramid(r, l) == [Shape("convex", << >>) EXCEPT !.v = [q \in 1..(K + 1) |-> IF q > K THEN << Zero, Zero, HalfR(l) >> ELSE << R(r) ** RCos(Angle(q)), R(r) ** RSin(Angle(q)), RNeg(HalfR(l)) >>],
                 !.f = << [q \in 1..K |-> K - q] >> \o [q \in 1..K |-> << q - 1, q % K, K >>]]
Close(M, L, t) == LET z == t ** (One ++ RAbs(L.v)) IN RNear(M.v, L.v, z) /\ VNear(M.m, L.m, z ** R(2)) /\ \A q \in 1..6 : RNear(M.s[q], L.s[q], z ** R(N * N))
Shifted(M, o) == [v |-> M.v, m |-> VAdd(M.m, VScale(M.v, o)),
                  s |-> LET at == << << 1, 1 >>, << 2, 2 >>, << 3, 3 >>, << 1, 2 >>, << 1, 3 >>, << 2, 3 >> >>
                        IN [q \in 1..6 |-> M.s[q] ++ (((M.m[at[q][1]] ** o[at[q][2]]) ++ (o[at[q][1]] ** M.m[at[q][2]])) ++ (M.v ** (o[at[q][1]] ** o[at[q][2]])))]]
Init == c \in [x : 1..N, y : 1..N, z : 1..N]
Next == UNCHANGED c
Boxes == /\ Close(Measure(Cuboid(c.x, c.y, c.z, VZero)), Measure(Shape("box", << R(c.x), R(c.y), R(c.z) >>)), RQ(1, 1000000000))
         /\ Close(Measure(Cuboid(c.x, c.y, c.z, VI(c.y, -c.z, 2))), Shifted(Measure(Shape("box", << R(c.x), R(c.y), R(c.z) >>)), VI(c.y, -c.z, 2)), RQ(1, 1000000000))
Rounds == /\ Close(Measure(Shape("ellipsoid", << R(c.x), R(c.x), R(c.x) >>)), Measure(Shape("sphere", << R(c.x) >>)), RQ(1, 1000000000))
          /\ Close(Measure(Shape("capsule", << R(c.x), Zero >>)), Measure(Shape("sphere", << R(c.x) >>)), RQ(1, 1000000000))
          /\ Measure(Shape("cylinder", << R(c.x), R(c.z) >>)).v \prec Measure(Shape("capsule", << R(c.x), R(c.z) >>)).v
          /\ Close(Measure(Prism(c.x, c.z)), Measure(Shape("cylinder", << R(c.x), R(c.z) >>)), RQ(1, 100))
          /\ Close(Measure(Pyramid(c.x, c.z)), Measure(Shape("cone", << R(c.x), R(c.z) >>)), RQ(1, 100))
\* an ellipsoid is a stretched sphere
Stretch == LET M == Measure(Shape("ellipsoid", << R(c.x), R(c.y), R(c.z) >>))
               U == Measure(Shape("sphere", << One >>))
               J == R(c.x * c.y * c.z)
           IN RNear(M.v, J ** U.v, RQ(1, 1000000)) /\ RNear(M.s[1], (J ** R(c.x * c.x)) ** U.s[1], RQ(1, 1000000)) /\ RNear(M.s[2], (J ** R(c.y * c.y)) ** U.s[2], RQ(1, 1000000)) /\ RNear(M.s[3], (J ** R(c.z * c.z)) ** U.s[3], RQ(1, 1000000))
=============================================================================
