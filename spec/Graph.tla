---- MODULE Graph ----
(* Finite undirected graphs: nodes V, edges E (sets of one or two nodes). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Adj(E, x, y) == {x, y} \in E
Nbrs(V, E, x) == { y \in V : y # x /\ Adj(E, x, y) }
RECURSIVE Closure(_, _, _)
Closure(V, E, S) == LET T == S \cup UNION { Nbrs(V, E, x) : x \in S } IN IF T = S THEN S ELSE Closure(V, E, T)
Reach(V, E, x) == Closure(V, E, {x})
Classes(V, E) == { Reach(V, E, x) : x \in V }

(* the linear pieces of a component: classes of its nodes of degree at most two *)
Ordinary(V, E) == { x \in V : Cardinality(Nbrs(V, E, x)) <= 2 }
Pieces(V, E) == Classes(Ordinary(V, E), E)
Range(c) == { c[i] : i \in DOMAIN c }
IsPath(E, c) == /\ Cardinality(Range(c)) = Len(c)
                /\ \A i \in 1..(Len(c) - 1) : Adj(E, c[i], c[i + 1])
IsLoop(E, c) == Len(c) > 1 /\ Adj(E, c[1], c[Len(c)])

(* distances: hops, and with non-negative weights w (a function on E) *)
RECURSIVE Layer(_, _, _, _)
Layer(V, E, S, k) == IF k = 0 THEN S ELSE Layer(V, E, S \cup UNION { Nbrs(V, E, x) : x \in S }, k - 1)
Hops(V, E, x, y) == CHOOSE k \in 0..Cardinality(V) : y \in Layer(V, E, {x}, k) /\ (k = 0 \/ y \notin Layer(V, E, {x}, k - 1))
Inf == 1000000
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
RECURSIVE Relax(_, _, _, _, _)
Relax(V, E, w, d, k) == IF k = 0 THEN d ELSE
  Relax(V, E, w, TLCEval([y \in V |-> MinOf({ d[y] } \cup { d[x] + w[{x, y}] : x \in { z \in Nbrs(V, E, y) : d[z] < Inf } })]), k - 1)
Shortest(V, E, w, s) == Relax(V, E, w, [y \in V |-> IF y = s THEN 0 ELSE Inf], Cardinality(V))
RECURSIVE PathLen(_, _)
PathLen(w, c) == IF Len(c) < 2 THEN 0 ELSE w[{c[1], c[2]}] + PathLen(w, Tail(c))
====
