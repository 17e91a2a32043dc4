---- MODULE MCDegree ----
(***************************************************************************)
(* For every choice of values at the corners of a quadrangle, the sum of   *)
(* the degrees of the two triangles does not depend on the diagonal, nor   *)
(* do they depend on the corner a triangle's list starts with; both the    *)
(* sum of one turn and of none occur.  Corners are numbered by Num.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SoS, Degree
CONSTANTS Vals, Plain
Vals9 == {<<x, y>> : x, y \in -1..1}
Numberings == {<<1, 2, 3, 4>>, <<3, 1, 4, 2>>, <<2, 4, 3, 1>>}
VARIABLES val, num
Init == val \in [1..4 -> Vals] /\ num \in Numberings
Next == UNCHANGED <<val, num>>
Spec == Init /\ [][Next]_<<val, num>>
V(g) == val[g]
\* negative control: no perturbation, zeros on the border belong to every triangle around them
Bare(t) == LET s == Sort3(t) R == [r \in 1..3 |-> V(s[r])] IN
           IF \A i \in 1..3 : Num(R, i) * Den(R) >= 0 THEN Turns(t) * SgnI(Den(R)) ELSE 0
Deg(i, j, k) == LET t == <<num[i], num[j], num[k]>> IN IF Plain THEN Bare(t) ELSE DegreeOf(V, t)
\* corners 1 2 3 4 counterclockwise
Diagonal == Deg(1, 2, 3) + Deg(1, 3, 4) = Deg(1, 2, 4) + Deg(2, 3, 4)
Rotate == Deg(1, 2, 3) = Deg(2, 3, 1) /\ Deg(1, 2, 3) = 0 - Deg(2, 1, 3)
Bounded == Deg(1, 2, 3) + Deg(1, 3, 4) \in -1..1
====
