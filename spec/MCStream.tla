---- MODULE MCStream ----
(***************************************************************************)
(* The asynchronous stream: a producer reads timesteps, the consumer       *)
(* processes them; one slot between them, a mutex and one condition        *)
(* variable.  notify wakes one waiting thread, waits may end spuriously.   *)
(* Protocol "slot": the producer waits until the slot is free.             *)
(* Protocol "overwrite": it does not (timesteps are lost).                 *)
(* Protocol "nopredicate": waits end after one wake-up, whatever the state.*)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS N, Protocol, StopAt     \* StopAt: the first timestep that does not exist any more
VARIABLES i, slot, alldone, lock, pcP, pcC, got, log, waitP, waitC
vars == <<i, slot, alldone, lock, pcP, pcC, got, log, waitP, waitC>>
None == N + 100
Init == i = 0 /\ slot = None /\ alldone = FALSE /\ lock = "free" /\ pcP = "read" /\ pcC = "lock" /\ got = None /\ log = <<>> /\ waitP = FALSE /\ waitC = FALSE
Exists(k) == k < N /\ k < StopAt
Limit == IF StopAt < N THEN StopAt ELSE N
WakeC == waitC' = FALSE
\* producer
PRead == pcP = "read" /\ pcP' = (IF i < N THEN "lock" ELSE "finish") /\ UNCHANGED <<i, slot, alldone, lock, pcC, got, log, waitP, waitC>>
PLock == pcP = "lock" /\ lock = "free" /\ lock' = "P" /\ pcP' = "check" /\ UNCHANGED <<i, slot, alldone, pcC, got, log, waitP, waitC>>
PCheck == pcP = "check" /\
          IF Protocol = "overwrite" \/ slot = None
          THEN pcP' = "put" /\ UNCHANGED <<i, slot, alldone, lock, pcC, got, log, waitP, waitC>>
          ELSE waitP' = TRUE /\ lock' = "free" /\ pcP' = "waiting" /\ UNCHANGED <<i, slot, alldone, pcC, got, log, waitC>>
PWoken == pcP = "waiting" /\ ~waitP /\ lock = "free" /\ lock' = "P" /\ pcP' = (IF Protocol = "nopredicate" THEN "put" ELSE "check") /\ UNCHANGED <<i, slot, alldone, pcC, got, log, waitP, waitC>>
PPut == pcP = "put" /\ IF Exists(i)
        THEN slot' = i /\ WakeC /\ lock' = "free" /\ i' = i + 1 /\ pcP' = "read" /\ UNCHANGED <<alldone, pcC, got, log, waitP>>
        ELSE lock' = "free" /\ pcP' = "finish" /\ UNCHANGED <<i, slot, alldone, pcC, got, log, waitP, waitC>>
PFinish == pcP = "finish" /\ lock = "free" /\ alldone' = TRUE /\ WakeC /\ pcP' = "done" /\ UNCHANGED <<i, slot, lock, pcC, got, log, waitP>>
\* consumer
CLock == pcC = "lock" /\ lock = "free" /\ lock' = "C" /\ pcC' = "check" /\ UNCHANGED <<i, slot, alldone, pcP, got, log, waitP, waitC>>
CCheck == pcC = "check" /\
          IF slot # None THEN got' = slot /\ slot' = None /\ waitP' = FALSE /\ lock' = "free" /\ pcC' = "process" /\ UNCHANGED <<i, alldone, pcP, log, waitC>>
          ELSE IF alldone THEN lock' = "free" /\ pcC' = "join" /\ UNCHANGED <<i, slot, alldone, pcP, got, log, waitP, waitC>>
          ELSE waitC' = TRUE /\ lock' = "free" /\ pcC' = "waiting" /\ UNCHANGED <<i, slot, alldone, pcP, got, log, waitP>>
CWoken == pcC = "waiting" /\ ~waitC /\ lock = "free" /\ lock' = "C" /\ pcC' = "check" /\ UNCHANGED <<i, slot, alldone, pcP, got, log, waitP, waitC>>
CProcess == pcC = "process" /\ log' = Append(log, got) /\ got' = None /\ pcC' = "lock" /\ UNCHANGED <<i, slot, alldone, lock, pcP, waitP, waitC>>
CJoin == pcC = "join" /\ pcP = "done" /\ pcC' = "done" /\ UNCHANGED <<i, slot, alldone, lock, pcP, got, log, waitP, waitC>>
Spurious == \/ waitP /\ waitP' = FALSE /\ UNCHANGED <<i, slot, alldone, lock, pcP, pcC, got, log, waitC>>
            \/ waitC /\ waitC' = FALSE /\ UNCHANGED <<i, slot, alldone, lock, pcP, pcC, got, log, waitP>>
Prod == PRead \/ PLock \/ PCheck \/ PWoken \/ PPut \/ PFinish
Cons == CLock \/ CCheck \/ CWoken \/ CProcess \/ CJoin
Real == Prod \/ Cons
Next == Real \/ Spurious
Spec == Init /\ [][Next]_vars /\ SF_vars(Prod) /\ SF_vars(Cons)
InOrder == \A k \in 1..Len(log): log[k] = k - 1
Stuck == ~(ENABLED Real)
Complete == Stuck => pcC = "done" /\ Len(log) = Limit
Terminates == <>(pcC = "done")
====
