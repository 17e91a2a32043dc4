---- MODULE MCSoS ----
(* For every field on one spacetime cell, the zero set enters and leaves it:
   0 or 2 of the cell's facets contain a zero.  (2D: tetrahedron, all fields
   over -1..1;  3D: pentatope, fields enumerated by a stride.)             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SoS
CONSTANTS D, Base, Stride, From
VARIABLES k, cnt
NV == D + 2
Digit(x, i) == ((x \div (3 ^ i)) % 3) - 1
Field(x) == [r \in 1..NV |-> [j \in 1..D |-> Digit(x, (r - 1) * D + j - 1)]]
Crossed(V) == Cardinality({i \in 1..NV : ZeroIn(DropAt(V, i))})
Init == k \in {From + i * Stride : i \in 0..Base} /\ k < 3 ^ (NV * D) /\ cnt = -1
Next == cnt = -1 /\ cnt' = Crossed(Field(k)) /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, cnt>>
InOut == cnt \in {-1, 0, 2}
====
