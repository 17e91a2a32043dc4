---- MODULE MCUMesh ----
(* Every numbering of the vertices of a few small base meshes: the slabs of the extrusion fit together. *)
EXTENDS UMesh, Sequences, TLC
CONSTANTS Meshes, Rule
VARIABLES C, N, D
vars == <<C, N, D>>
M2 == << [n |-> 3, c |-> {{0,1,2}}],
         [n |-> 4, c |-> {{0,1,2},{1,2,3}}],
         [n |-> 5, c |-> {{0,1,2},{0,2,3},{0,3,4}}],
         [n |-> 5, c |-> {{0,1,4},{1,2,4},{2,3,4},{3,0,4}}],
         [n |-> 4, c |-> {{0,1,2},{0,1,3},{0,2,3},{1,2,3}}],
         [n |-> 6, c |-> {{0,1,2},{1,2,3},{2,3,4},{3,4,5}}] >>
M3 == << [n |-> 4, c |-> {{0,1,2,3}}],
         [n |-> 5, c |-> {{0,1,2,3},{1,2,3,4}}],
         [n |-> 5, c |-> {{0,1,2,3},{0,1,3,4},{0,1,2,4}}],
         [n |-> 5, c |-> {{0,1,2,4},{0,1,3,4},{0,2,3,4},{1,2,3,4}}] >>
ASSUME Meshes \in {"2", "3", "all"}
Perms(n) == { f \in [0..n-1 -> 0..n-1] : \A i, j \in 0..n-1 : i # j => f[i] # f[j] }
Init == /\ \/ Meshes \in {"2", "all"} /\ D = 2 /\ \E i \in 1..Len(M2) : \E f \in Perms(M2[i].n) : N = M2[i].n /\ C = { { f[v] : v \in S } : S \in M2[i].c }
           \/ Meshes \in {"3", "all"} /\ D = 3 /\ \E i \in 1..Len(M3) : \E f \in Perms(M3[i].n) : N = M3[i].n /\ C = { { f[v] : v \in S } : S \in M3[i].c }
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* Rule "stair" is the specification; "flip" lifts by another order in one of the cells: a negative control *)
Top(t) == IF Rule = "stair" THEN Upright(C, N, D + 1, t)
          ELSE LET b == CHOOSE c \in C : TRUE IN
               Upright(C \ {b}, N, D + 1, t) \cup { Lift({ v \in b : v >= a }, { v \in b : v <= a }, N, t) : a \in b }
Tops == Top(0) \cup Top(1)
BaseBd == { s \in Faces(C, D - 1) : Cardinality({ c \in C : s \subseteq c }) = 1 }
OnBoundary(s) == \/ \A x \in s : Time(x, N) = 0
                 \/ \A x \in s : Time(x, N) = 2
                 \/ \E b \in BaseBd : { Base(x, N) : x \in s } \subseteq b
Conforming == \A s \in UNION { Facets(u) : u \in Tops } :
                Cardinality({ u \in Tops : s \subseteq u }) = IF OnBoundary(s) THEN 1 ELSE 2
(* the faces of the top simplices are exactly the simplices of the slabs *)
Complete == \A k \in 0..D : Faces(Tops, k) = Slab(C, N, k, 0) \cup Slab(C, N, k, 1) \cup InPlane(C, N, k, 2)
(* each simplex belongs to one slab, in-plane or not *)
Disjoint == \A k \in 0..D+1 : /\ InPlane(C, N, k, 0) \cap Interval(C, N, k, 0) = {}
                              /\ Slab(C, N, k, 0) \cap Slab(C, N, k, 1) = {}
                              /\ Slanted(C, N, k, 0) \cap Upright(C, N, k, 0) = {}
(* as many as the implementation enumerates *)
F(k) == Cardinality(Faces(C, k))
Counts == \A k \in 0..D+1 : /\ Cardinality(InPlane(C, N, k, 0)) = F(k)
                            /\ Cardinality(Interval(C, N, k, 0)) = k * F(k) + k * (IF k = 0 THEN 0 ELSE F(k - 1))
                            /\ Cardinality(Top(0)) = (D + 1) * Cardinality(C)
(* Euler characteristic is the one of the base *)
RECURSIVE Chi(_, _)
Chi(S, k) == IF k < 0 THEN 0 ELSE (IF k % 2 = 0 THEN 1 ELSE -1) * Cardinality(Faces(S, k)) + Chi(S, k - 1)
Euler == Chi(Tops, D + 1) = Chi(C, D)
(* side_of inverts sides, across slabs *)
Dual == \A u \in Tops : \A s \in Facets(u) :
          LET t == CHOOSE t \in 0..2 : \E x \in s : Time(x, N) = t /\ \A y \in s : Time(y, N) >= t
          IN u \in SidesOf(C, N, D, t, s)
====
