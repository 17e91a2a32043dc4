---- MODULE MCFilter ----
(***************************************************************************)
(* The filter that smooths a series in time keeps a window of the last K   *)
(* timesteps and a cursor.  Refinement: what it computes for output k is   *)
(* the sum over Tap(k, i, K, n) - for every length n of the series, which  *)
(* the filter does not know before the end.  Values are the timesteps'     *)
(* own numbers, so an output is the sequence of timesteps it combines.     *)
(***************************************************************************)
EXTENDS Stream, FiniteSets
CONSTANTS MaxN, Ks, Flush       \* Flush: "all" or "half" (negative control: only half a kernel of outputs at the end)
VARIABLES ksz, len, fed, win, cur, out, ended
vars == <<ksz, len, fed, win, cur, out, ended>>
Init == ksz \in Ks /\ len \in 0..MaxN /\ fed = 0 /\ win = <<>> /\ cur = 0 /\ out = <<>> /\ ended = FALSE
Get(w, c) == [i \in 1..ksz |-> w[Min2(Len(w) - 1, Max2(0, (i - 1) + c - Half(ksz) + 1)) + 1]]
Push == fed < len /\ fed' = fed + 1 /\ UNCHANGED <<ksz, len, ended>> /\
        LET w1 == Append(win, fed + 1)
            drop == Len(w1) > ksz
            w == IF drop THEN Tail(w1) ELSE w1
            c == IF drop THEN cur - 1 ELSE cur
        IN win' = w /\ (IF Len(w) >= Half(ksz) THEN out' = Append(out, Get(w, c)) /\ cur' = c + 1 ELSE out' = out /\ cur' = c)
Finish == fed = len /\ ~ended /\
          IF (IF Flush = "all" THEN cur < Len(win) ELSE cur < Len(win) /\ Len(win) >= ksz) THEN out' = Append(out, Get(win, cur)) /\ cur' = cur + 1 /\ UNCHANGED <<ksz, len, fed, win, ended>>
          ELSE ended' = TRUE /\ UNCHANGED <<ksz, len, fed, win, cur, out>>
Next == Push \/ Finish
Spec == Init /\ [][Next]_vars
Values == \A o \in 1..Len(out): out[o] = [i \in 1..ksz |-> Tap(o - 1, i, ksz, len)]
All == ended => Len(out) = len
====
