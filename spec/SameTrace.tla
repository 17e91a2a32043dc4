---- MODULE SameTrace ----
(***************************************************************************)
(* Several runs of one computation under different configurations (number  *)
(* of threads, backend, processes, root process, whole or partial arrays)  *)
(* must report the same points and the same curves, up to the direction,   *)
(* the numbering and (closed curves) the starting point of a curve.        *)
(***************************************************************************)
EXTENDS TraceCases, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
PtKey(p) == <<p.f, p.g, p.x, p.s, p.ty, p.o, p.ts>>
\* links of a curve, as unordered pairs
CurveKey(c) ==
  LET n == Len(c.p) IN
  <<{PtKey(c.p[i]) : i \in 1..n}, n, c.loop,
    {{c.p[i].g, c.p[i + 1].g} : i \in 1..(n - 1)} \cup (IF c.loop THEN {{c.p[1].g, c.p[n].g}} ELSE {}),
    <<c.tn, c.tx, c.bn, c.bx, c.sn, c.sx, c.ct>>>>
Canon(e) == [pts |-> {PtKey(p) : p \in Rng(e.p)}, np |-> Len(e.p), tr |-> {CurveKey(c) : c \in Rng(e.tr)}, nt |-> Len(e.tr)]
CStartBad(r) == {}
CStart(r) == [n |-> 0]
CBad(st, e) == IF st.n = 0 THEN {} ELSE
  LET c == Canon(e) IN
  (IF c.pts # st.c.pts \/ c.np # st.c.np THEN {"points"} ELSE {}) \cup (IF c.tr # st.c.tr \/ c.nt # st.c.nt THEN {"trajectories"} ELSE {})
CApply(st, e) == IF st.n = 0 THEN [n |-> 1, c |-> Canon(e)] ELSE st
====
