---- MODULE MCParFor ----
(* Strided workers; worker 0 is the caller, which joins the others.  A worker
   thread is created by the caller before it starts its own share. *)
EXTENDS ParFor
CONSTANTS MaxN, MaxT, Join
VARIABLES n, w, pc, j, abs, bad, made
vars == <<n, w, pc, j, abs, bad, made>>
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ n \in 0..MaxN /\ \E t \in 1..MaxT : w = Min(n, t)
        /\ pc = [i \in 0..MaxT |-> "idle"] /\ j = [i \in 0..MaxT |-> i] /\ abs = Fresh(n) /\ bad = {} /\ made = 1
Emit(e) == /\ bad' = bad \cup BadEvent(abs, e) /\ abs' = After(abs, e)
Create == made < w /\ pc[0] = "idle" /\ made' = made + 1 /\ pc' = [pc EXCEPT ![made] = "loop"] /\ UNCHANGED <<n, w, j, abs, bad>>
Go == made >= w /\ pc[0] = "idle" /\ pc' = [pc EXCEPT ![0] = "loop"] /\ UNCHANGED <<n, w, j, abs, bad, made>>
Begin(i) == pc[i] = "loop" /\ j[i] < n /\ pc' = [pc EXCEPT ![i] = "body"] /\ Emit(<<"b", j[i]>>) /\ UNCHANGED <<n, w, j, made>>
End(i) == pc[i] = "body" /\ pc' = [pc EXCEPT ![i] = "loop"] /\ Emit(<<"e", j[i]>>) /\ j' = [j EXCEPT ![i] = @ + w] /\ UNCHANGED <<n, w, made>>
Quit(i) == pc[i] = "loop" /\ j[i] >= n /\ pc' = [pc EXCEPT ![i] = "done"] /\ UNCHANGED <<n, w, j, abs, bad, made>>
Ret == pc[0] = "done" /\ (Join => \A i \in 1..(w - 1) : pc[i] = "done") /\ ~abs.ret
       /\ Emit(<<"r", 0>>) /\ UNCHANGED <<n, w, pc, j, made>>
Next == Create \/ Go \/ Ret \/ \E i \in 0..(MaxT - 1) : Begin(i) \/ End(i) \/ Quit(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refines == bad = {}
Returns == <>(abs.ret)
====
