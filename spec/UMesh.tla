---- MODULE UMesh ----
(***************************************************************************)
(* The time extrusion of a simplicial base mesh (triangles or tetrahedra). *)
(* The base mesh is a set C of vertex sets; vertices are 0..N-1.  Vertex v *)
(* at time t is the number v + N*t.  Every prism between t and t+1 over a  *)
(* base simplex is cut by the staircase rule: going up, the vertices are   *)
(* lifted from the largest to the smallest number.                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Faces(C, k) == UNION { { S \in SUBSET c : Cardinality(S) = k + 1 } : c \in C }

Lift(lo, hi, N, t) == { v + N * t : v \in lo } \cup { v + N * (t + 1) : v \in hi }

InPlane(C, N, k, t) == { Lift(S, {}, N, t) : S \in Faces(C, k) }
(* spanning copies of base k-simplices: the vertices above a are lifted *)
Slanted(C, N, k, t) ==
  UNION { { Lift({ v \in S : v <= a }, { v \in S : v > a }, N, t) : a \in S \ { MaxOf(S) } } : S \in Faces(C, k) }
(* k-simplices inside the prism over a base (k-1)-simplex: vertex a is there twice *)
Upright(C, N, k, t) ==
  IF k = 0 THEN {} ELSE UNION { { Lift({ v \in S : v <= a }, { v \in S : v >= a }, N, t) : a \in S } : S \in Faces(C, k - 1) }

Interval(C, N, k, t) == Slanted(C, N, k, t) \cup Upright(C, N, k, t)
Slab(C, N, k, t) == InPlane(C, N, k, t) \cup Interval(C, N, k, t)

Facets(s) == { s \ { x } : x \in s }
(* the (k+1)-simplices having the k-simplex s of slab t as a side *)
SidesOf(C, N, k, t, s) == { u \in Slab(C, N, k + 1, t - 1) \cup Slab(C, N, k + 1, t) : s \subseteq u }
Cofaces(C, k, s) == { u \in Faces(C, k + 1) : s \subseteq u }

(* a vertex of the extruded mesh *)
Base(x, N) == x % N
Time(x, N) == x \div N
====
