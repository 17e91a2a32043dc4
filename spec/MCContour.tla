---- MODULE MCContour ----
(***************************************************************************)
(* For every choice of inside vertices of a small space-time grid, the     *)
(* canonical fillings of the cells fit together: every face of a piece     *)
(* either lies on the border of the grid or belongs to exactly two pieces. *)
(* (Every filling has its border on the walls of its cell.)                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, CPMesh, Contour
CONSTANTS Dims, T, Twist, Every
D22 == <<2, 2>>
D32 == <<3, 2>>
D222 == <<2, 2, 2>>
VARIABLE In
N == LET F[i \in 0..Len(Dims)] == IF i = 0 THEN 1 ELSE Dims[i] * F[i - 1] IN F[Len(Dims)]
Lo == [i \in 1..Len(Dims) |-> 0]
Cells == TLCEval(UNION {SlabCells(RegCells(Dims, Lo, Dims), N, t) : t \in 0..(T - 2)})
Walls == TLCEval(UNION {Facets(c) : c \in Cells})
InnerWalls == TLCEval({Elems(f) : f \in {w \in Walls : Cardinality({c \in Cells : Elems(w) \subseteq Elems(c)}) = 2}})
Init == In \in SUBSET (0..(N * T - 1))
Next == UNCHANGED In
Spec == Init /\ [][Next]_In
\* negative control: quads filled with two triangles that share a side of the quad
Bow(c) == LET P == Canonical(c, In) q == CHOOSE S \in P : TRUE IN
          IF Cardinality(P) = 2 THEN {q, LET V == CrossedOf(c, In) o == CHOOSE x \in V : x \notin q IN {o} \cup (CHOOSE f \in Faces1(q) : f \in Border(P))} ELSE P
Fill(c) == IF Twist THEN Bow(c) ELSE Canonical(c, In)
AllPieces == [c \in Cells |-> Fill(c)]
\* the border of a filling lies on the walls of its cell, each wall covered by the section of that wall
CellOk == \A c \in Cells : \A P \in (IF Every THEN Fillings(c, In) ELSE {Fill(c)}) :
             LET B == Border(P) IN
             /\ \A f \in B : Cardinality(Elems(c) \ Span(f)) >= 1
             /\ \A w \in Facets(c) : {f \in B : Span(f) \subseteq Elems(w)} \in Fillings(w, In)
             /\ \A S \in P : S \subseteq CrossedOf(c, In) /\ Span(S) = Elems(c)
Watertight ==
  LET P == UNION {Fill(c) : c \in Cells}
      F == UNION {Faces1(S) : S \in P}
  IN \A f \in F : LET n == Cardinality({S \in P : f \subseteq S}) IN
        n <= 2 /\ (n = 1 => ~\E w \in InnerWalls : Span(f) \subseteq w) 
====
