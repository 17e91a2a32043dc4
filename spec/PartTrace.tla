---- MODULE PartTrace ----
EXTENDS TraceCases, Partition
CStart(r) == [d |-> <<r.st, r.sz>>]
CStartBad(r) == {}
\* prescribed divisions fit when they divide the processes and no dimension is cut finer than its size
RECURSIVE GivenProd(_, _)
GivenProd(g, i) == IF i = 0 THEN 1 ELSE Max(1, g[i]) * GivenProd(g, i - 1)
AllGiven(g) == \A i \in DOMAIN g : g[i] > 0
NoneGiven(g) == \A i \in DOMAIN g : g[i] = 0
Divides(g, np) == np % GivenProd(g, Len(g)) = 0
Rest(g, np) == np \div GivenProd(g, Len(g))
MinSize(s) == CHOOSE m \in { s[i] : i \in DOMAIN s } : \A j \in DOMAIN s : m <= s[j]
\* certainly feasible: every dimension could take all the factors assigned to it
Fits(d, g, np) == /\ Divides(g, np)
                  /\ AllGiven(g) => Rest(g, np) = 1
                  /\ \A i \in DOMAIN g : g[i] > 0 => g[i] <= d[2][i]
                  /\ \A i \in DOMAIN g : g[i] = 0 => Rest(g, np) <= d[2][i]
Invalid(g, np) == ~NoneGiven(g) /\ (~Divides(g, np) \/ (AllGiven(g) /\ Rest(g, np) # 1))
PartBad(s, e) ==
  LET n == Len(e.cores) IN
  (IF n = 0 /\ Fits(s.d, e.given, e.np) THEN {"no-partition-although-it-fits"} ELSE {})
  \cup (IF n # 0 /\ n # e.np THEN {"wrong-number-of-blocks"} ELSE {})
  \cup (IF n # 0 /\ Invalid(e.given, e.np) THEN {"partition-although-the-divisions-do-not-fit"} ELSE {})
  \cup (IF n # 0 /\ ~Tiles(e.cores, s.d) THEN {"cores-do-not-tile-the-domain"} ELSE {})
  \cup (IF n # 0 /\ n = e.np /\ \E i \in DOMAIN e.given : e.given[i] > 0 /\ Cuts(e.cores, i) # e.given[i] THEN {"prescribed-division-not-honoured"} ELSE {})
  \cup (IF Len(e.exts) # n THEN {"wrong-number-of-extents"} ELSE {})
  \cup (IF Len(e.exts) = n /\ \E i \in DOMAIN e.cores : e.exts[i] # Ghost(e.cores[i], s.d, e.lo, e.hi) THEN {"ghost-layers"} ELSE {})
  \cup (IF e.nd # Len(s.d[1]) THEN {"nd"} ELSE {})
CBad(s, e) ==
  CASE e.op = "part" -> PartBad(s, e)
    [] e.op = "ghost" -> IF <<e.gs, e.gz>> = Ghost(<<e.bs, e.bz>>, s.d, e.lo, e.hi) THEN {} ELSE {"ghost-layers"}
    [] e.op = "contains" -> IF e.r = (\A i \in DOMAIN e.c : Lo(s.d)[i] <= e.c[i] /\ e.c[i] <= Hi(s.d)[i]) THEN {} ELSE {"contains"}
CApply(s, e) == s
====
