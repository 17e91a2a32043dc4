---- MODULE MCLine ----
(***************************************************************************)
(* For every choice of values (from a small set, ties included) at the     *)
(* five vertices of a pentachoron, the crossed triangles are the corners   *)
(* of one closed polygon: no or two in every tetrahedron, none or three to *)
(* five in all, every one in two sides, and one round.  The crossing of a  *)
(* wall therefore looks the same from the cells on both sides.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SoS, CPMesh, Line
CONSTANTS Vals, Open
Vals4 == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, -1>>}
Vals6 == Vals4 \cup {<<-1, 1>>, <<2, -1>>}
VARIABLE val
Cell == <<1, 2, 3, 4, 5>>
Init == val \in [1..5 -> Vals]
Next == UNCHANGED val
Spec == Init /\ [][Next]_val
V(g) == val[g]
\* negative control: zeros strictly inside only, no perturbation
Strict(f) == LET R == Values(V, f) IN Den(R) # 0 /\ \A i \in 1..3 : Num(R, i) * Den(R) > 0
X == {f \in TrisOf(Cell) : IF Open THEN Strict(f) ELSE Meets(V, f)}
Shortcut == \A f \in TrisOf(Cell) : Meets(V, f) = ZeroIn(Values(V, f))
Polygon ==
  LET S == Sides(Cell, X) IN
  /\ \A s \in S : Cardinality(s) = 2
  /\ Cardinality(X) \in {0, 3, 4, 5}
  /\ Cardinality(S) = Cardinality(X)
  /\ \A f \in X : Cardinality({s \in S : f \in s}) = 2
  /\ X # {} => Reach({CHOOSE f \in X : TRUE}, S) = X
  /\ \* the fan over the polygon and all triangles over it both fill it
     X # {} => Fills({t \in SUBSET X : Cardinality(t) = 3}, Cell, X)
====
