---- MODULE CollTrace ----
(***************************************************************************)
(* Exchanges within a process group as one atomic step from what every     *)
(* process puts in to what every process gets.  Items are <<key, value>>.  *)
(* in[p] = <<items>>, or <<items for process 1, ...>> for scatter/all2all. *)
(***************************************************************************)
EXTENDS TraceCases, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
\* the item as the container type keeps it
Norm(ty, it) == IF ty \in {"set", "vec", "json"} THEN <<it[1], <<>>>> ELSE it
NormS(ty, s) == [i \in DOMAIN s |-> Norm(ty, s[i])]
Concat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
Bag(s) == [x \in Rng(s) |-> Count(x, s)]
\* the container holding the items of several processes; order matters for no exchange but broadcast and scatter
Union(ty, e, ss) == LET c == NormS(ty, Concat(ss)) IN IF ty \in {"vec", "pts"} THEN Bag(c) ELSE [x \in Rng(c) |-> 1]
Has(ty, got) == Bag(got)
P(e) == DOMAIN e.in
All(e, p) == e.in[p][1]
\* every list stays together and in order within what is gathered
Infix(a, b) == \E k \in 0..(Len(b) - Len(a)) : \A i \in 1..Len(a) : b[k + i] = a[i]
Bad1(e) ==
  LET ty == e.ty r == e.root + 1
      all == [p \in P(e) |-> All(e, p)] IN
  CASE e.op \in {"gather", "gathera"} ->
         (IF Has(ty, e.out[r]) # Union(ty, e, all) THEN {"gather"} ELSE {}) \cup
         (IF ty \in {"vec", "pts"} /\ \E p \in P(e) : ~Infix(NormS(ty, all[p]), e.out[r]) THEN {"gather-order"} ELSE {})
    [] e.op = "allgather" ->
         (IF \E p \in P(e) : Has(ty, e.out[p]) # Union(ty, e, all) THEN {"allgather"} ELSE {}) \cup
         (IF ty \in {"vec", "pts"} /\ \E q \in P(e) : \E p \in P(e) : ~Infix(NormS(ty, all[p]), e.out[q]) THEN {"allgather-order"} ELSE {})
    [] e.op = "bcast" ->
         IF \E p \in P(e) : IF ty \in {"map", "set"} THEN Rng(e.out[p]) # Rng(NormS(ty, all[r])) \/ Len(e.out[p]) # Cardinality(Rng(e.out[p]))
                            ELSE e.out[p] # NormS(ty, all[r]) THEN {"broadcast"} ELSE {}
    [] e.op = "scatter" ->
         IF \E p \in P(e) : IF ty \in {"map", "set"} THEN Rng(e.out[p]) # Rng(NormS(ty, e.in[r][p])) \/ Len(e.out[p]) # Cardinality(Rng(e.out[p]))
                            ELSE e.out[p] # NormS(ty, e.in[r][p]) THEN {"scatter"} ELSE {}
    [] e.op = "all2all" ->
         IF \E p \in P(e) : Has(ty, e.out[p]) # Union(ty, e, [q \in P(e) |-> e.in[q][p]]) THEN {"all2all"} ELSE {}
    [] e.op = "redist" ->
         LET items == UNION {Rng(all[p]) : p \in P(e)}
             at(x) == {p \in P(e) : x \in Rng(e.out[p])} IN
         (IF UNION {Rng(e.out[p]) : p \in P(e)} # items THEN {"redistribute-conserve"} ELSE {}) \cup
         (IF \E p \in P(e) : Len(e.out[p]) # Cardinality(Rng(e.out[p])) THEN {"redistribute-once"} ELSE {}) \cup
         (IF \E x \in items : at(x) # {(x[1] % Cardinality(P(e))) + 1} THEN {"redistribute-address"} ELSE {})
    [] OTHER -> {"unknown-event"}
CStartBad(r) == {}
CStart(r) == 0
CBad(st, e) == Bad1(e)
CApply(st, e) == st
====
