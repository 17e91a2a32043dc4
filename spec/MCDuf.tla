---- MODULE MCDuf ----
(***************************************************************************)
(* The parent forest behind disjoint sets with concurrent clients.  Find   *)
(* halves paths; unite looks up both roots and links one to the other,     *)
(* atomically (Atomic = TRUE) or in two steps (negative control: the       *)
(* links of another union can be lost in between).                         *)
(***************************************************************************)
EXTENDS DisjointSet, TLC
CONSTANTS N, T, Unions, Finds, Atomic
E == 1..N
VARIABLES par, spec, todo, pc, loc
vars == <<par, spec, todo, pc, loc>>
Init == /\ par = [x \in E |-> x] /\ spec = AddAll(Empty, E)
        /\ todo = [t \in 1..T |-> [u |-> Unions, f |-> Finds]] /\ pc = [t \in 1..T |-> "idle"] /\ loc = [t \in 1..T |-> <<0, 0>>]
RECURSIVE Root(_, _)
Root(p, x) == IF p[x] = x THEN x ELSE Root(p, p[x])
RECURSIVE Halve(_, _)
Halve(p, x) == IF p[x] = x THEN p ELSE LET q == [p EXCEPT ![x] = p[p[x]]] IN Halve(q, q[x])
Find(t) == /\ pc[t] = "idle" /\ todo[t].f > 0 /\ \E x \in E :
              LET q == Halve(par, x) r == Root(q, x) d == OpStep(spec, <<"find", x>>, <<r>>) IN
              /\ Assert(d # {}, "find") /\ par' = q /\ spec' = CHOOSE c \in d : TRUE
           /\ todo' = [todo EXCEPT ![t].f = @ - 1] /\ UNCHANGED <<pc, loc>>
Link(p, a, b) == IF a = b THEN p ELSE IF a > b THEN [p EXCEPT ![a] = b] ELSE [p EXCEPT ![b] = a]
UniteAtomic(t) == /\ Atomic /\ pc[t] = "idle" /\ todo[t].u > 0 /\ \E x, y \in E :
                     LET q == Halve(Halve(par, x), y) IN
                     par' = Link(q, Root(q, x), Root(q, y)) /\ spec' = CHOOSE c \in OpStep(spec, <<"unite", x, y>>, <<>>) : TRUE
                  /\ todo' = [todo EXCEPT ![t].u = @ - 1] /\ UNCHANGED <<pc, loc>>
Unite1(t) == /\ ~Atomic /\ pc[t] = "idle" /\ todo[t].u > 0 /\ \E x, y \in E :
                LET q == Halve(Halve(par, x), y) IN
                par' = q /\ loc' = [loc EXCEPT ![t] = <<Root(q, x), Root(q, y)>>] /\ spec' = CHOOSE c \in OpStep(spec, <<"unite", x, y>>, <<>>) : TRUE
             /\ pc' = [pc EXCEPT ![t] = "link"] /\ UNCHANGED todo
Unite2(t) == /\ pc[t] = "link" /\ par' = Link(par, loc[t][1], loc[t][2]) /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ todo' = [todo EXCEPT ![t].u = @ - 1] /\ UNCHANGED <<spec, loc>>
Next == \E t \in 1..T : Find(t) \/ UniteAtomic(t) \/ Unite1(t) \/ Unite2(t)
Spec == Init /\ [][Next]_vars
Quiet == \A t \in 1..T : pc[t] = "idle"
Acyclic == \A x \in E : LET F[k \in 0..N] == IF k = 0 THEN x ELSE par[F[k - 1]] IN par[F[N]] = F[N]
Partition == Quiet => \A x, y \in E : (Root(par, x) = Root(par, y)) <=> (spec.cls[x] = spec.cls[y])
Reps == Quiet => \A x \in E : Root(par, x) \in spec.cand[spec.cls[x]]
====
