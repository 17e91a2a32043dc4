---- MODULE MCCurve ----
(* Every history of edits of one small trajectory: nothing is lost, nothing is invented, the order along the curve is
   kept, splitting ends with consistent maximal pieces (Turning = FALSE: split closed curves without rotating them,
   negative control). *)
EXTENDS Curve, TLC
CONSTANTS N, Turning
VARIABLES set, start, phase
vars == <<set, start, phase>>
P(k, ty, o) == [k |-> k, ty |-> ty, ts |-> k \div 2, t |-> k, o |-> o]
Init == /\ \E l \in BOOLEAN, ty \in [1..N -> 0..2], o \in [1..N -> BOOLEAN] :
             LET c == [k \in 1..N |-> P(k, ty[k], o[k])] IN set = { [c |-> c, loop |-> l] } /\ start = [c |-> c, loop |-> l]
        /\ phase = 0
One == CHOOSE x \in set : TRUE
Smooth == phase = 0 /\ phase' = 1 /\ \E d \in { SmoothInt(SmoothOrd(One.c, 1)), One.c } : set' = {[One EXCEPT !.c = d]} /\ UNCHANGED start
Rotate == phase = 1 /\ phase' = 2 /\ UNCHANGED start
          /\ \E d \in { Turn(One.c, k) : k \in 1..N } : Rotated(One.c, One.loop /\ Turning, d) /\ set' = {[One EXCEPT !.c = d]}
Split == phase = 2 /\ phase' = 3 /\ UNCHANGED start
         /\ set' = IF Same(One.c) THEN set ELSE { [c |-> Runs(One.c)[i], loop |-> FALSE] : i \in DOMAIN Runs(One.c) }
Reorder == phase = 3 /\ phase' = 4 /\ UNCHANGED start
           /\ set' = { [x EXCEPT !.c = CHOOSE d \in {x.c, Rev(x.c)} : Reordered(x.c, x.loop, d)] : x \in set }
Discard == phase = 4 /\ phase' = 5 /\ UNCHANGED start
           /\ set' = { [x EXCEPT !.c = Keep(x.c, LAMBDA p : ~p.o)] : x \in set } \ { [c |-> <<>>, loop |-> FALSE] }
Next == Smooth \/ Rotate \/ Split \/ Reorder \/ Discard
Spec == Init /\ [][Next]_vars

Pts == UNION { { x.c[i].k : i \in DOMAIN x.c } : x \in set }
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(x.c) + Sum(S \ {x})
Conserved == /\ phase < 5 => Pts = 1..N /\ Sum(set) = N
             /\ phase = 5 => Pts = { k \in 1..N : start.c[k].o }
Next1(a, b) == b = a + 1 \/ a = b + 1 \/ (start.loop /\ {a, b} = {1, N})
Order == phase < 5 => \A x \in set : \A i \in 1..(Len(x.c) - 1) : Next1(x.c[i].k, x.c[i + 1].k)
Consistent == phase \in {3, 4} => /\ \A x \in set : Same(x.c)
   /\ \A x, y \in set : x # y => \A i \in DOMAIN x.c, j \in DOMAIN y.c : Next1(x.c[i].k, y.c[j].k) => x.c[i].ty # y.c[j].ty
Forward == phase = 4 => \A x \in set : x.loop \/ ~Before(x.c[Len(x.c)], x.c[1])
SmoothKeeps == phase = 1 => \A i \in 1..N : (One.c[i].ty # start.c[i].ty /\ start.c[i].o) =>
                \E a, b \in Ordinals(start.c) : a < i /\ i < b /\ One.c[i].ty = start.c[a].ty /\ One.c[i].ty = start.c[b].ty
====
