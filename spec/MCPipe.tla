---- MODULE MCPipe ----
(***************************************************************************)
(* One command of the tool, run by NP processes on a series of T           *)
(* timesteps.  Every process reads its part of each timestep (the reader   *)
(* runs one timestep ahead, Async, or not at all), keeps the points of its *)
(* block, sends them to the root when tracing (every timestep if Online,   *)
(* else at the end) and, in the end, the result is written: an open clears *)
(* the file, a write puts the writer's points over what is there.          *)
(* Points: <<t, o, p>>, found in the block of process p at timestep t      *)
(* (o = 1) or in the interval after t (o = 0).                             *)
(* Guarded = FALSE: every process writes (negative control).               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NP, T, Async, Online, Guarded
Procs == 0..(NP - 1)
VARIABLES ahead, \* timesteps read, per process
          k,     \* timesteps consumed
          own,   \* points a process holds
          cur,   \* points on the root's curves
          ph,    \* phase of a process
          file,  \* contents of the result file: a set of points, or Torn
          sl     \* slice files: timestep -> set of points
vars == <<ahead, k, own, cur, ph, file, sl>>
Torn == {<<-1, -1, -1>>}
All == {<<t, o, p>> : t \in 0..(T - 1), o \in {0, 1}, p \in Procs} \ {<<T - 1, 0, p>> : p \in Procs}
Ord(S, t) == {x \in S : x[1] = t /\ x[2] = 1}
Init == /\ ahead = [p \in Procs |-> 0] /\ k = [p \in Procs |-> 0] /\ own = [p \in Procs |-> {}] /\ cur = {}
        /\ ph = [p \in Procs |-> "read"] /\ file = {} /\ sl = [t \in 0..(T - 1) |-> {}]
Read(p) == /\ ph[p] = "read" /\ ahead[p] < T /\ ahead[p] - k[p] < (IF Async THEN 2 ELSE 1)
           /\ ahead' = [ahead EXCEPT ![p] = @ + 1] /\ UNCHANGED <<k, own, cur, ph, file, sl>>
\* consuming timestep t completes t - 1: its points and those of the interval after it
Found(p, t) == (IF t > 0 THEN {<<t - 1, 1, p>>, <<t - 1, 0, p>>} ELSE {}) \cup (IF t = T - 1 THEN {<<t, 1, p>>} ELSE {})
Consume(p) == /\ ph[p] = "read" /\ k[p] < ahead[p]
              /\ own' = [own EXCEPT ![p] = @ \cup Found(p, k[p])]
              /\ k' = [k EXCEPT ![p] = @ + 1]
              /\ ph' = [ph EXCEPT ![p] = IF Online /\ k[p] > 0 THEN "grow" ELSE IF k[p] + 1 = T THEN "trace" ELSE "read"]
              /\ UNCHANGED <<ahead, cur, file, sl>>
\* a collective: all processes hand their points to the root.  Online, the last timestep comes after the last growth.
Late(q) == IF k[q] = T THEN {<<T - 1, 1, q>>} ELSE {}
Gather == /\ \/ /\ \A p \in Procs : ph[p] = "grow"
                /\ LET new == UNION {own[q] \ Late(q) : q \in Procs} IN
                   /\ cur' = cur \cup new
                   /\ sl' = [t \in 0..(T - 1) |-> IF t = k[0] - 2 THEN Ord(cur \cup new, t) ELSE sl[t]]
                /\ own' = [q \in Procs |-> own[q] \cap Late(q)]
                /\ ph' = [q \in Procs |-> IF k[q] = T THEN "open" ELSE "read"]
             \/ /\ \A p \in Procs : ph[p] = "trace"
                /\ cur' = (IF Online THEN cur ELSE UNION {own[q] : q \in Procs})
                /\ own' = [q \in Procs |-> {}] /\ ph' = [q \in Procs |-> "open"] /\ UNCHANGED sl
          /\ UNCHANGED <<ahead, k, file>>
Mine(p) == IF p = 0 THEN cur ELSE own[p]
Open(p) == /\ ph[p] = "open"
           /\ IF Guarded /\ p # 0 THEN ph' = [ph EXCEPT ![p] = "done"] /\ UNCHANGED file
              ELSE ph' = [ph EXCEPT ![p] = "write"] /\ file' = {}
           /\ UNCHANGED <<ahead, k, own, cur, sl>>
Write(p) == /\ ph[p] = "write"
            /\ file' = (IF file = {} THEN Mine(p) ELSE IF Mine(p) = file THEN file ELSE Torn)
            /\ sl' = (IF p = 0 THEN [t \in 0..(T - 1) |-> Ord(cur, t)] ELSE sl)
            /\ ph' = [ph EXCEPT ![p] = "done"] /\ UNCHANGED <<ahead, k, own, cur>>
Done == (\A p \in Procs : ph[p] = "done") /\ UNCHANGED vars
Next == Done \/ Gather \/ \E p \in Procs : Read(p) \/ Consume(p) \/ Open(p) \/ Write(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Want == IF Online THEN All \ {<<T - 1, 1, p>> : p \in Procs} ELSE All
Complete == (\A p \in Procs : ph[p] = "done") => file = Want /\ \A t \in 0..(T - 1) : sl[t] = Ord(Want, t)
NothingInvented == cur \subseteq All /\ \A t \in 0..(T - 1) : sl[t] \subseteq Ord(cur, t)
Ends == <>(\A p \in Procs : ph[p] = "done")
====
