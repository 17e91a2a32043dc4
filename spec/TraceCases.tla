---- MODULE TraceCases ----
(***************************************************************************)
(* Frame of every trace specification.  The file named by the environment  *)
(* variable TRACE holds one JSON record per line; each record is one       *)
(* recorded behaviour of the implementation ("case") with its events in    *)
(* field ev.  Every case is an initial state; one step consumes one event. *)
(*   Start(r)      initial specification state of case r                   *)
(*   StartBad(r)   clauses violated by the case header                     *)
(*   Bad(st, e)    names of the clauses event e violates in state st       *)
(*   Apply(st, e)  specification state after e                             *)
(* A case whose event violates a clause is rejected (printed) and stops.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS Start(_), StartBad(_), Bad(_, _), Apply(_, _)

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tc, tl, tst, tok
tvars == <<tc, tl, tst, tok>>

TInit == tc \in 1..Len(Cases) /\ tl = -1 /\ tst = <<>> /\ tok = TRUE

Step(bad, new) ==
  IF bad = {} THEN tok' = TRUE /\ tst' = new
  ELSE /\ PrintT(<<"REJECT", tc, tl + 1, bad>>)
       /\ tok' = FALSE /\ tst' = <<>>

TNext ==
  /\ tok /\ tl < Len(Cases[tc].ev)
  /\ tl' = tl + 1 /\ UNCHANGED tc
  /\ IF tl = -1
     THEN LET r == Cases[tc] IN Step(StartBad(r), Start(r))
     ELSE LET e == Cases[tc].ev[tl + 1] IN Step(Bad(tst, e), Apply(tst, e))

TSpec == TInit /\ [][TNext]_tvars
====
