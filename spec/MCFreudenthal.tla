---- MODULE MCFreudenthal ----
(***************************************************************************)
(* The definition itself promises what M01 says: for every small box, the  *)
(* simplices are closed under sides, sides and cofaces are converse, each  *)
(* interior facet bounds two top simplices and each border facet one, the  *)
(* top simplices fill the volume (n! per cube), and the per-timestep       *)
(* enumeration by ordinal/interval scope lists each simplex exactly once.  *)
(***************************************************************************)
EXTENDS Freudenthal
VARIABLES n, sz, k
Boxes == UNION { [1..m -> 1..IF m = 2 THEN 4 ELSE IF m = 3 THEN 3 ELSE 2] : m \in 2..4 }
Init == sz \in Boxes /\ n = Len(sz) /\ k = 0
Next == k < n /\ k' = k + 1 /\ UNCHANGED <<n, sz>>
Spec == Init /\ [][Next]_<<n, sz, k>>
lo == [i \in 1..n |-> 0]
hi == [i \in 1..n |-> sz[i] - 1]
RECURSIVE Fact(_)
Fact(m) == IF m = 0 THEN 1 ELSE m * Fact(m - 1)
RECURSIVE Prod(_, _)
Prod(f, i) == IF i = 0 THEN 1 ELSE f[i] * Prod(f, i - 1)
Slab(t, ord) == { S \in SimplicesAt(k, lo, hi, [lo EXCEPT ![n] = t], [hi EXCEPT ![n] = t]) : Ordinal(S) = ord }
Conforming ==
  LET X == Simplices(k, lo, hi) IN
  /\ \A S \in X : IsSimplex(S) /\ Dim(S) = k
  /\ k > 0 => \A S \in X : Cardinality(Sides(S)) = k + 1 /\ \A F \in Sides(S) : IsSimplex(F) /\ SInBox(F, lo, hi) /\ S \in Cofaces(F)
  /\ k < n => \A S \in X : \A T \in CofacesIn(S, lo, hi) : S \in Sides(T)
  /\ k = n - 1 => \A S \in X : Cardinality(CofacesIn(S, lo, hi)) = (IF OnBorder(S, lo, hi) THEN 1 ELSE 2) \/ \E i \in 1..n : sz[i] = 1
  /\ k = n => Cardinality(X) = Fact(n) * Prod([i \in 1..n |-> sz[i] - 1], n)
  /\ Cardinality(X) = Cardinality(UNION { Slab(t, b) : t \in 0..hi[n], b \in BOOLEAN })
  /\ \A s, t \in 0..hi[n] : \A a, b \in BOOLEAN : <<s, a>> # <<t, b>> => Slab(s, a) \cap Slab(t, b) = {}
====
