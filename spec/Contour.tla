---- MODULE Contour ----
(***************************************************************************)
(* Level sets on the space-time mesh of CPMesh.  A vertex is inside when   *)
(* its value does not exceed the threshold.  The level set crosses the     *)
(* edges with one end inside; within a cell it is the product of the       *)
(* inside vertices A and the outside vertices B (its corners are the edges *)
(* A x B).  A cell is filled by one simplex if A or B is a single vertex,  *)
(* and by a triangulation of A x B without new corners otherwise.          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
Elems(s) == {s[i] : i \in DOMAIN s}
EdgeOf(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
EdgesOf(c) == {e \in {<<c[i], c[j]>> : i, j \in 1..Len(c)} : e[1] < e[2]}
Crossed(In, e) == (e[1] \in In) # (e[2] \in In)
CrossedOf(c, In) == {e \in EdgesOf(c) : Crossed(In, e)}
\* the triangulations of the product of A and B without new corners (A, B disjoint sets of vertices, each a set of edges per simplex)
Orders(B) == {p \in [1..Cardinality(B) -> B] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
\* |A| = 2: staircases, one for each order of B
Stairs(a1, a2, p) == {{EdgeOf(a1, p[i]) : i \in 1..k} \cup {EdgeOf(a2, p[i]) : i \in k..Len(p)} : k \in 1..Len(p)}
Triangulations(A, B) ==
  IF A = {} \/ B = {} THEN {{}}
  ELSE IF Cardinality(A) = 1 \/ Cardinality(B) = 1 THEN {{{EdgeOf(a, b) : a \in A, b \in B}}}
  ELSE IF Cardinality(A) = 2 THEN LET a1 == CHOOSE a \in A : TRUE a2 == CHOOSE a \in A : a # a1 IN {Stairs(a1, a2, p) : p \in Orders(B)}
  ELSE LET b1 == CHOOSE b \in B : TRUE b2 == CHOOSE b \in B : b # b1 IN {Stairs(b1, b2, p) : p \in Orders(A)}
\* ways to fill cell c
Fillings(c, In) == LET V == Elems(c) IN Triangulations(V \cap In, V \ In)
\* the filling that follows the numbering of the vertices: the same diagonal is chosen from both sides of a wall
Sorted(B) == CHOOSE p \in Orders(B) : \A i, j \in DOMAIN p : i < j => p[i] < p[j]
Canonical(c, In) ==
  LET V == Elems(c) A == V \cap In B == V \ In IN
  IF A = {} \/ B = {} THEN {} ELSE IF Cardinality(A) = 1 \/ Cardinality(B) = 1 THEN {{EdgeOf(a, b) : a \in A, b \in B}}
  ELSE IF Cardinality(A) = 2 THEN LET q == Sorted(A) IN Stairs(q[1], q[2], Sorted(B)) ELSE LET q == Sorted(B) IN Stairs(q[1], q[2], Sorted(A))
\* faces of the pieces: drop one corner
Faces1(S) == {S \ {x} : x \in S}
\* those on the border of the filling: faces of exactly one piece
Border(P) == {f \in UNION {Faces1(S) : S \in P} : Cardinality({S \in P : f \subseteq S}) = 1}
\* vertices of mesh edges a face touches
Span(f) == UNION {{e[1], e[2]} : e \in f}
====
