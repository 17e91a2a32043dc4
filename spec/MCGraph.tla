---- MODULE MCGraph ----
(***************************************************************************)
(* The traversals as nondeterministic algorithms, on every graph of N      *)
(* nodes:  "curve"    grow a curve from a seed to one side, then the other *)
(*         "oneway"   to one side only (negative control)                  *)
(*         "dijkstra" settle a nearest open node, stop when there is none  *)
(*         "bfs"      first in, first out                                  *)
(***************************************************************************)
EXTENDS Graph, TLC
CONSTANTS N, Algo, MaxW
V == 0..(N - 1)
VARIABLES E, w, q, done, st
vars == <<E, w, q, done, st>>
AllE == { {x, y} : x, y \in V } \ { {x} : x \in V }
Init == /\ E \in SUBSET AllE /\ done = {} /\ st = <<>>
        /\ w \in [E -> 0..MaxW]
        /\ q = CASE Algo \in {"curve", "oneway"} -> <<>> [] Algo = "bfs" -> << <<0>>, {0} >> [] OTHER -> [x \in V |-> IF x = 0 THEN 0 ELSE Inf]

Ord == Ordinary(V, E)
Used == UNION { Range(c) : c \in done } \cup Range(q)
Seed == q = <<>> /\ \E x \in Ord \ Used : q' = <<x>> /\ UNCHANGED done
Fwd == q # <<>> /\ \E y \in (Nbrs(V, E, q[Len(q)]) \cap Ord) \ Used : q' = Append(q, y) /\ UNCHANGED done
FwdEnd == q # <<>> /\ (Nbrs(V, E, q[Len(q)]) \cap Ord) \ Used = {}
Back == FwdEnd /\ Algo = "curve" /\ \E y \in (Nbrs(V, E, q[1]) \cap Ord) \ Used : q' = <<y>> \o q /\ UNCHANGED done
Close == FwdEnd /\ (Algo = "oneway" \/ (Nbrs(V, E, q[1]) \cap Ord) \ Used = {}) /\ done' = done \cup {q} /\ q' = <<>>
Curve == (Seed \/ Fwd \/ Back \/ Close) /\ UNCHANGED <<E, w, st>>
CurveDone == q = <<>> /\ Ord \ Used = {}
CurveInv == Algo \in {"curve", "oneway"} =>
   /\ \A c \in done \cup {q} : IsPath(E, c)
   /\ CurveDone => { Range(c) : c \in done } = Pieces(V, E) /\ Cardinality(done) = Cardinality(Pieces(V, E))

Open == { x \in V : q[x] < Inf /\ x \notin done }
Settle == \E u \in { x \in Open : \A y \in Open : q[x] <= q[y] } :
   /\ done' = done \cup {u}
   /\ q' = [y \in V |-> IF y \in Nbrs(V, E, u) THEN MinOf({q[y], q[u] + w[{u, y}]}) ELSE q[y]]
   /\ UNCHANGED <<E, w, st>>
DijkstraInv == Algo = "dijkstra" => /\ \A x \in done : q[x] = Shortest(V, E, w, 0)[x]
                                    /\ Open = {} => done = Reach(V, E, 0)

Bfs == /\ q[1] # <<>>
       /\ LET u == q[1][1] new == Nbrs(V, E, u) \ q[2] IN
          \E f \in { p \in [1..Cardinality(new) -> new] : Range(p) = new } : q' = << Tail(q[1]) \o f, q[2] \cup new >>
       /\ st' = Append(st, q[1][1]) /\ UNCHANGED <<E, w, done>>
BfsInv == Algo = "bfs" => /\ \A i, j \in DOMAIN st : i < j => st[i] # st[j] /\ Hops(V, E, 0, st[i]) <= Hops(V, E, 0, st[j])
                          /\ q[1] = <<>> => Range(st) = Reach(V, E, 0)
Next == CASE Algo \in {"curve", "oneway"} -> Curve [] Algo = "bfs" -> Bfs [] OTHER -> Settle
Spec == Init /\ [][Next]_vars
====
