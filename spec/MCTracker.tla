---- MODULE MCTracker ----
(***************************************************************************)
(* The schedule of a tracker: snapshots are pushed, timesteps advanced or  *)
(* re-examined, the tracker reset.  Model-checked for every interleaving   *)
(* of up to NS snapshots; every maximal history is printed and replayed    *)
(* into the real trackers (check T04).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NS, MaxU, MaxR, Emit, Broken

VARIABLES q,      \* queued snapshots, by number
          ct,     \* current timestep
          pushed, \* snapshots pushed since the last reset
          ord,    \* examinations of in-plane elements   <<timestep, snapshot>>
          itv,    \* examinations of interval elements   <<timestep, snapshot, next snapshot>>
          nu, nr, hist
vars == <<q, ct, pushed, ord, itv, nu, nr, hist>>

Init == q = <<>> /\ ct = 0 /\ pushed = 0 /\ ord = {} /\ itv = {} /\ nu = 0 /\ nr = 0 /\ hist = <<>>

Push == pushed < NS /\ q' = Append(q, pushed) /\ pushed' = pushed + 1 /\ hist' = Append(hist, "P")
        /\ UNCHANGED <<ct, ord, itv, nu, nr>>
Examine == ord' = ord \cup {<<ct, q[1]>>} /\ itv' = itv \cup (IF Len(q) > 1 THEN {<<ct, q[1], q[2]>>} ELSE {})
Update == Len(q) > 0 /\ nu < MaxU /\ Examine /\ nu' = nu + 1 /\ hist' = Append(hist, "U") /\ UNCHANGED <<q, ct, pushed, nr>>
Advance == Len(q) > 0 /\ Examine /\ q' = (IF Broken /\ Len(q) > 2 THEN Tail(Tail(q)) ELSE Tail(q)) /\ ct' = ct + 1 /\ hist' = Append(hist, "A")
           /\ UNCHANGED <<pushed, nu, nr>>
Reset == nr < MaxR /\ Len(hist) > 0 /\ q' = <<>> /\ ct' = 0 /\ pushed' = 0 /\ ord' = {} /\ itv' = {} /\ nr' = nr + 1
         /\ hist' = Append(hist, "R") /\ UNCHANGED nu
Over == pushed = NS /\ q = <<>>
Done == Over /\ (Emit => PrintT(<<"SCHEDULE", hist>>)) /\ hist' = Append(hist, "end") /\ UNCHANGED <<q, ct, pushed, ord, itv, nu, nr>>
Next == IF Len(hist) > 0 /\ hist[Len(hist)] = "end" THEN FALSE ELSE Push \/ Update \/ Advance \/ Reset \/ Done
Spec == Init /\ [][Next]_vars

\* each timestep is examined with its own snapshot, each interval with the two that bound it
Right == (\A o \in ord : o[1] = o[2]) /\ (\A i \in itv : i[1] = i[2] /\ i[3] = i[2] + 1)
\* every timestep passed has been examined, and its interval if the next snapshot was there
Complete == (\A t \in 0..(ct - 1) : <<t, t>> \in ord) /\ Cardinality(ord) <= ct + 1
Consumed == \A k \in 1..Len(q) : q[k] = ct + k - 1
Inv == Right /\ Complete /\ Consumed
V == <<q, ct, pushed, ord, itv, nu, nr>>
====
