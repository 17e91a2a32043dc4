---- MODULE DisjointTrace ----
(***************************************************************************)
(* Linearizability of recorded histories of disjoint sets.  Events         *)
(*   ["c", thread, op]   a call starts;  ["r", thread, result]  it returns *)
(* The specification state is the set of all [c: configuration, p: calls   *)
(* in progress, l: calls that took effect (with the result they promised)] *)
(* compatible with the history so far.                                     *)
(***************************************************************************)
EXTENDS TraceCases, DisjointSet
NoRes == <<-99>>
\* the result each call returns is known from the record (looked up when the call starts), so taking effect is deterministic
Lin(s) == UNION {{[s EXCEPT !.c = c2, !.p = [u \in (DOMAIN s.p) \ {t} |-> s.p[u]], !.l = @ \cup {t}] : c2 \in OpStep(s.c, s.p[t][1], s.p[t][2])} : t \in DOMAIN s.p}
RECURSIVE Close(_, _)
Close(S, k) == IF k = 0 THEN S ELSE LET T == S \cup UNION {Lin(s) : s \in S} IN IF T = S THEN S ELSE Close(T, k - 1)
Ret(S, t) == {[s EXCEPT !.l = @ \ {t}] : s \in {s \in Close(S, 16) : t \in s.l}}
New(S, e) == IF e[1] = "c" THEN {[s EXCEPT !.p = Put(s.p, e[2], <<e[3], e[4]>>)] : s \in S} ELSE Ret(S, e[2])
CStartBad(r) == {}
CStart(r) == {[c |-> AddAll(Empty, {r.init[i] : i \in DOMAIN r.init}), p |-> <<>>, l |-> {}]}
CBad(S, e) == IF New(S, e) = {} THEN {"not-explained-by-any-order-of-the-operations"} ELSE {}
CApply(S, e) == New(S, e)
====
