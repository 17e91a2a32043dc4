---- MODULE Degree ----
(***************************************************************************)
(* Index (degree) of a planar vector field at its zero in a triangle given *)
(* counterclockwise: 1 or -1 where the perturbed field turns with or       *)
(* against the triangle, 0 where the triangle holds no zero.               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SoS
Sort3(t) == CHOOSE p \in {<<t[i], t[j], t[k]>> : i, j, k \in 1..3} : {p[1], p[2], p[3]} = {t[1], t[2], t[3]} /\ p[1] < p[2] /\ p[2] < p[3]
Turns(t) == IF <<t[1], t[2], t[3]>> \in {LET s == Sort3(t) IN <<s[i], s[(i % 3) + 1], s[((i + 1) % 3) + 1]>> : i \in 1..3} THEN 1 ELSE -1
DegreeOf(V(_), t) == LET s == Sort3(t) R == [r \in 1..3 |-> V(s[r])] IN IF ZeroIn(R) THEN Turns(t) * SgnP(R) ELSE 0
\* sign of the area of the triangle with corners P(t[1]), P(t[2]), P(t[3]) in the plane
Winding(P(_), t) == LET d(i, k) == P(t[i])[k] - P(t[1])[k] IN SgnI(d(2, 1) * d(3, 2) - d(3, 1) * d(2, 2))
====
