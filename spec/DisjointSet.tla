---- MODULE DisjointSet ----
(***************************************************************************)
(* Disjoint sets as seen by a user.  A configuration is                    *)
(*   cls[x]   smallest element of x's set, for every element added so far  *)
(*   cand[c]  elements that may be the set's representative: a union keeps *)
(*            one of the two representatives, an observation narrows it    *)
(* Op(c, op) is the set of <<configuration after, result>> of an operation; *)
(* results a user may rely on only.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Sequences
Empty == [cls |-> <<>>, cand |-> <<>>]
Elems(c) == DOMAIN c.cls
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
AddE(c, x) == IF x \in Elems(c) THEN c ELSE [cls |-> Put(c.cls, x, x), cand |-> Put(c.cand, x, {x})]
RECURSIVE AddAll(_, _)
AddAll(c, S) == IF S = {} THEN c ELSE LET x == CHOOSE y \in S : TRUE IN AddAll(AddE(c, x), S \ {x})
Min2(a, b) == IF a < b THEN a ELSE b
Merge(c, x, y) ==
  LET a == c.cls[x] b == c.cls[y] m == Min2(a, b) IN
  IF a = b THEN c
  ELSE [cls |-> [z \in Elems(c) |-> IF c.cls[z] \in {a, b} THEN m ELSE c.cls[z]],
        cand |-> [z \in (DOMAIN c.cand) \ ({a, b} \ {m}) |-> IF z = m THEN c.cand[a] \cup c.cand[b] ELSE c.cand[z]]]
Class(c, x) == {y \in Elems(c) : c.cls[y] = c.cls[x]}
Classes(c) == DOMAIN c.cand
Narrow(c, k, r) == [c EXCEPT !.cand[k] = {r}]
RECURSIVE NarrowAll(_, _)
NarrowAll(c, R) == IF R = {} THEN c ELSE LET x == CHOOSE y \in R : TRUE IN NarrowAll(Narrow(c, c.cls[x], x), R \ {x})
\* the configuration after op returned res, or {} if it may not return res.  op = <<name, args...>>; auto: finding or uniting an unknown element adds it
OpStep(c, op, res) ==
  CASE op[1] = "add" -> {AddE(c, op[2])}
    [] op[1] = "sync" -> {c}
    [] op[1] = "has" -> IF res = <<IF op[2] \in Elems(c) THEN 1 ELSE 0>> THEN {c} ELSE {}
    [] op[1] = "unite" -> {Merge(AddAll(c, {op[2], op[3]}), op[2], op[3])}
    [] op[1] = "find" -> LET d == AddE(c, op[2]) k == d.cls[op[2]] IN
         IF Len(res) = 1 /\ res[1] \in d.cand[k] THEN {Narrow(d, k, res[1])} ELSE {}
    [] op[1] = "same" -> LET d == AddAll(c, {op[2], op[3]}) IN IF res = <<IF d.cls[op[2]] = d.cls[op[3]] THEN 1 ELSE 0>> THEN {d} ELSE {}
    [] op[1] = "isroot" -> LET k == c.cls[op[2]] IN
         IF res = <<1>> THEN (IF op[2] \in c.cand[k] THEN {Narrow(c, k, op[2])} ELSE {})
         ELSE (IF c.cand[k] # {op[2]} THEN {[c EXCEPT !.cand[k] = @ \ {op[2]}]} ELSE {})
    [] op[1] = "parent" -> IF Len(res) = 1 /\ res[1] \in Class(c, op[2]) THEN {c} ELSE {}
    [] op[1] = "size" -> IF res = <<Cardinality(Elems(c))>> THEN {c} ELSE {}
    [] op[1] = "roots" -> LET R == {res[i] : i \in DOMAIN res} IN
         IF Len(res) = Cardinality(Classes(c)) /\ R \subseteq Elems(c) /\ {c.cls[x] : x \in R} = Classes(c) /\ \A x \in R : x \in c.cand[c.cls[x]]
         THEN {NarrowAll(c, R)} ELSE {}
    [] op[1] = "sets" -> IF Len(res) = Cardinality(Classes(c)) /\ {{res[i][j] : j \in DOMAIN res[i]} : i \in DOMAIN res} = {Class(c, x) : x \in Elems(c)}
                            /\ \A i \in DOMAIN res : Len(res[i]) = Cardinality({res[i][j] : j \in DOMAIN res[i]}) THEN {c} ELSE {}
    [] OTHER -> {}
====
