---- MODULE ParFor ----
(***************************************************************************)
(* A parallel loop over tasks 0..n-1.                                      *)
(*  - the abstract state (what callers may rely on): begun, ended tasks,   *)
(*    and whether the loop has returned; Legal(s, e) says which events are *)
(*    allowed.  ParTrace validates recorded loops against it.              *)
(*  - Model: strided workers with a joining caller, exhaustively checked   *)
(*    to refine the abstract loop.                                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
Fresh(n) == [n |-> n, begun |-> {}, ended |-> {}, ret |-> FALSE]
BadEvent(s, e) ==
  CASE e[1] = "b" -> (IF s.ret THEN {"runs-after-return"} ELSE {}) \cup
                     (IF e[2] \notin 0..(s.n - 1) THEN {"no-such-task"} ELSE {}) \cup
                     (IF e[2] \in s.begun THEN {"task-run-twice"} ELSE {})
    [] e[1] = "e" -> (IF s.ret THEN {"unfinished-at-return"} ELSE {}) \cup
                     (IF e[2] \notin s.begun \/ e[2] \in s.ended THEN {"task-run-twice"} ELSE {})
    [] e[1] = "r" -> IF Cardinality(s.ended) # s.n THEN {"task-missing-at-return"} ELSE {}
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e[1] = "b" -> [s EXCEPT !.begun = @ \cup {e[2]}]
    [] e[1] = "e" -> [s EXCEPT !.ended = @ \cup {e[2]}]
    [] OTHER -> [s EXCEPT !.ret = TRUE]
====
