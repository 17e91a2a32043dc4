---- MODULE Region ----
(* Regions of an image of w columns (cell i is column i % w, row i \div w), their overlaps over time, the labels that
   follow a region and the events in which regions appear, vanish, merge and split. *)
EXTENDS Graph
Near(w, i, j) == \/ i \div w = j \div w /\ (i = j + 1 \/ j = i + 1)
                 \/ i = j + w \/ j = i + w
NearE(w, S) == { {i, j} : i, j \in S } \cap { {i, j} : <<i, j>> \in { x \in S \X S : x[1] < x[2] /\ Near(w, x[1], x[2]) } }
Regions(w, S) == Classes(S, NearE(w, S))

\* the graph: nodes <<t, l>>, links { <<<<t, l>>, <<t', l'>>>> } with t < t'
Left(L, n) == { x[1] : x \in { y \in L : y[2] = n } }
Right(L, n) == { x[2] : x \in { y \in L : y[1] = n } }
OneToOne(L, x) == Right(L, x[1]) = {x[2]} /\ Left(L, x[2]) = {x[1]}
Chains(N, L) == Classes(N, { {x[1], x[2]} : x \in { y \in L : OneToOne(L, y) } })
At(N, t) == { n \in N : n[1] = t }
Between(L, a, b) == { x \in L : x[1][1] = a /\ x[2][1] = b }
Groups(N, L, a, b) == Classes(At(N, a) \cup At(N, b), { {x[1], x[2]} : x \in Between(L, a, b) })
Lhs(g, a) == { n[2] : n \in { m \in g : m[1] = a } }
Rhs(g, b) == { n[2] : n \in { m \in g : m[1] = b } }
EventsIn(N, L, a, b) == { << Lhs(g, a), Rhs(g, b) >> : g \in { h \in Groups(N, L, a, b) : Cardinality(h) # 2 } }
Kind(e) == LET l == Cardinality(e[1]) r == Cardinality(e[2]) IN
  CASE l = 1 /\ r = 1 -> "none" [] l = 0 /\ r = 1 -> "birth" [] l = 1 /\ r = 0 -> "death" [] l = 1 /\ r = 2 -> "split"
    [] l = 2 /\ r = 1 -> "merge" [] l = 2 /\ r = 2 -> "recombination" [] OTHER -> "compound"
====
