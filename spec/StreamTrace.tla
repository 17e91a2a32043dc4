---- MODULE StreamTrace ----
EXTENDS TraceCases, Stream
Abs(a) == IF a < 0 THEN -a ELSE a
Milli(r) == IF "milli" \in DOMAIN r THEN r.milli ELSE 1000
Scaled(r) == [k \in 1..Len(r.inp) |-> [p \in 1..Len(r.inp[k]) |-> r.inp[k][p] * Milli(r)]]
N(r) == IF "n" \in DOMAIN r THEN r.n ELSE Len(r.inp)
Sk(r) == IF "sk" \in DOMAIN r THEN r.sk ELSE 0
Pre(r) == TLCEval([k \in 1..N(r) |-> LET x == Scaled(r)[k] s == IF Sk(r) = 0 THEN x ELSE Space(x, r.dim, r.sk, r.sw) IN Clamp(s, r.clamp)])
CStartBad(r) == IF Len(r.inp) < N(r) THEN {"timesteps-in-the-source"} ELSE {}
CStart(r) == [next |-> 0, y |-> Pre(r), n |-> N(r), tw |-> r.tw, ts |-> r.ts, tol |-> r.tol]
CBad(s, e) ==
  IF e[1] = "end" THEN IF s.next # s.n THEN {"every-timestep-is-delivered"} ELSE {}
  ELSE IF e[2] # s.next THEN {"timesteps-in-order-exactly-once"}
  ELSE IF s.next >= s.n THEN {"no-timestep-beyond-the-end"}
  ELSE LET v == TLCEval(Time(s.y, e[2], s.tw, s.ts)) IN
       IF Len(e[3]) # Len(v) THEN {"size-of-timestep"}
       ELSE IF \E p \in 1..Len(v): Abs(e[3][p] - v[p]) > s.tol THEN {"values-of-timestep"} ELSE {}
CApply(s, e) == IF e[1] = "end" THEN s ELSE [s EXCEPT !.next = @ + 1]
====
