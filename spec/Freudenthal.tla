---- MODULE Freudenthal ----
(***************************************************************************)
(* The simplicial subdivision of the integer grid that the regular mesh    *)
(* promises (Freudenthal/Kuhn).  A point is a sequence of n integers; the  *)
(* LAST coordinate is time.  A k-simplex is a set of k+1 points that forms *)
(* a chain in the component-wise order and fits into one unit cube.  This  *)
(* is a definition, not an enumeration of tables: sides drop a vertex,     *)
(* cofaces add one.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Leq(p, q) == \A i \in DOMAIN p : p[i] <= q[i]
InCube(p, q) == \A i \in DOMAIN p : q[i] - p[i] \in {0, 1}
IsSimplex(S) == \A p, q \in S : InCube(p, q) \/ InCube(q, p)
Dim(S) == Cardinality(S) - 1
Add(p, q) == [i \in DOMAIN p |-> p[i] + q[i]]
Neg(p) == [i \in DOMAIN p |-> 0 - p[i]]
Zero(n) == [i \in 1..n |-> 0]
Cube(n) == [1..n -> {0, 1}]

\* chains of the unit cube that start at the origin, k steps up
RECURSIVE UpChains(_, _)
UpChains(n, k) ==
  IF k = 0 THEN { {Zero(n)} }
  ELSE UNION { { C \cup {v} : v \in {x \in Cube(n) : \A y \in C : Leq(y, x) /\ x # y} } : C \in UpChains(n, k - 1) }
UnitChains == TLCEval([n \in 1..4 |-> [k \in 0..n |-> UpChains(n, k)]])

Translate(S, p) == { Add(x, p) : x \in S }
MinPoint(S) == CHOOSE p \in S : \A q \in S : Leq(p, q)
BoxPoints(lo, hi) == { p \in [1..Len(lo) -> Int] : FALSE }

RECURSIVE Points(_, _, _)
Points(lo, hi, k) ==      \* all integer points of the box, first k coordinates
  IF k = 0 THEN { <<>> }
  ELSE { Append(p, x) : p \in Points(lo, hi, k - 1), x \in lo[k]..hi[k] }
Box(lo, hi) == Points(lo, hi, Len(lo))
InBox(p, lo, hi) == \A i \in DOMAIN p : lo[i] <= p[i] /\ p[i] <= hi[i]
SInBox(S, lo, hi) == \A p \in S : InBox(p, lo, hi)

Time(p) == p[Len(p)]
Ordinal(S) == \A p, q \in S : Time(p) = Time(q)

\* k-simplices of the box whose lowest corner lies in the sub-box
SimplicesAt(k, lo, hi, slo, shi) ==
  { S \in UNION { { Translate(C, p) : C \in UnitChains[Len(lo)][k] } : p \in Box(slo, shi) } : SInBox(S, lo, hi) }
Simplices(k, lo, hi) == SimplicesAt(k, lo, hi, lo, hi)

Sides(S) == IF Cardinality(S) = 1 THEN {} ELSE { S \ {v} : v \in S }
\* every point that can join a simplex lies within one step of its lowest point
Around(S) == LET b == MinPoint(S) IN { Add(b, x) : x \in [DOMAIN b -> {-1, 0, 1}] }
Cofaces(S) == { S \cup {v} : v \in { x \in Around(S) \ S : IsSimplex(S \cup {x}) } }
CofacesIn(S, lo, hi) == { T \in Cofaces(S) : SInBox(T, lo, hi) }
OnBorder(S, lo, hi) == \E i \in DOMAIN lo : (\A p \in S : p[i] = lo[i]) \/ (\A p \in S : p[i] = hi[i])
====
