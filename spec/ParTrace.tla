---- MODULE ParTrace ----
EXTENDS TraceCases, ParFor
\* count and sum of the tasks of a loop too long to list: n = hi * 65536 + lo; values modulo a small prime
CONSTANT Prime
M(a, b) == ((a % Prime) * (b % Prime)) % Prime
NMod(e) == (M(e.hi, 65536) + e.lo) % Prime
Half == (Prime + 1) \div 2
SumMod(e) == M(M(NMod(e), (NMod(e) + Prime - 1) % Prime), Half)
CStartBad(r) == {}
CStart(r) == Fresh(r.n)
CBad(s, e) ==
  IF e[1] # "sum" THEN BadEvent(s, e)
  ELSE LET h == [hi |-> e[2], lo |-> e[3]] IN
       (IF e[4] # NMod(h) THEN {"number-of-tasks-run"} ELSE {}) \cup (IF e[5] # SumMod(h) THEN {"sum-of-tasks-run"} ELSE {})
       \cup (IF e[6] # 0 THEN {"runs-after-return"} ELSE {})
CApply(s, e) == IF e[1] = "sum" THEN s ELSE After(s, e)
====
