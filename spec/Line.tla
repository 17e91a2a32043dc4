---- MODULE Line ----
(***************************************************************************)
(* Lines on which a pair of functions (u,v) vanishes in space, swept       *)
(* through time to surfaces.  On the space-time mesh of CPMesh the zero    *)
(* set meets triangles (2-simplices) in points; it crosses a tetrahedron   *)
(* along the segment between two points and a pentachoron in a polygon of  *)
(* three to five corners.  V(g) is the value pair at vertex g.             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE SoS
LOCAL INSTANCE CPMesh
LElems(s) == {s[i] : i \in DOMAIN s}
Tri5 == {q \in [1..3 -> 1..5] : q[1] < q[2] /\ q[2] < q[3]}
Tri4 == {q \in Tri5 : q[3] <= 4}
TrisOf(c) == {[k \in 1..3 |-> c[q[k]]] : q \in (IF Len(c) = 5 THEN Tri5 ELSE IF Len(c) = 4 THEN Tri4 ELSE {q \in Tri4 : q[3] = 3})}
Values(V(_), f) == [r \in 1..Len(f) |-> V(f[r])]
\* no zero where a component has one sign throughout (shortcut: agrees with ZeroIn, see MCLine)
OneSign(R, j) == (\A r \in DOMAIN R : R[r][j] > 0) \/ (\A r \in DOMAIN R : R[r][j] < 0)
Meets(V(_), f) == LET R == Values(V, f) IN ~OneSign(R, 1) /\ ~OneSign(R, 2) /\ ZeroIn(R)
\* the corners of the polygon in a cell, and its sides: pairs of corners in a common wall
Corners(c, X) == TrisOf(c) \cap X
Sides(c, X) == {Corners(w, X) : w \in Facets(c)} \ {{}}
\* a set of triangles over points fills a polygon: it uses just the corners, holds every side, and is connected
RECURSIVE Reach(_, _)
Reach(S, P) == LET n == S \cup UNION {p \in P : p \cap S # {}} IN IF n = S THEN S ELSE Reach(TLCEval(n), P)
Fills(P, c, X) ==
  LET C == Corners(c, X) IN
  IF C = {} THEN P = {} ELSE
  /\ UNION P = C
  /\ \A s \in Sides(c, X) : \E p \in P : s \subseteq p
  /\ Reach({CHOOSE x \in C : TRUE}, P) = C
====
