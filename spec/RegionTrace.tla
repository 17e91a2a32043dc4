---- MODULE RegionTrace ----
(* Conformance of the region labelling, the threshold tracker and the tracking graph (G02): see Region. *)
EXTENDS TraceCases, Region
ToSet(s) == { s[i] : i \in DOMAIN s }
CStart(r) == [N |-> {}, L |-> {}, EV |-> {}, w |-> r.w, t |-> 0, last |-> <<>>, fresh |-> TRUE]
CStartBad(r) == {}

\* one labelled image: cells qualify (q), labels 1..n, one per region
LabBad(w, q, lab, n) ==
  LET C == 0..(Len(lab) - 1) S == { c \in C : q[c + 1] } IN
  (IF \E c \in C : (lab[c + 1] # 0) # (c \in S) THEN {"labelled-cells"} ELSE {})
  \cup (IF { { c \in S : lab[c + 1] = l } : l \in { lab[c + 1] : c \in S } } # Regions(w, S) THEN {"regions"} ELSE {})
  \cup (IF { lab[c + 1] : c \in S } # 1..n THEN {"labels-consecutive"} ELSE {})
Cmp(m, v, thr) == CASE m = 0 -> v >= thr [] m = 1 -> v > thr [] m = 2 -> v <= thr [] m = 3 -> v < thr
Qual(e) == [i \in DOMAIN e.v |-> Cmp(e.m, e.v[i], e.thr)]
Max0(s) == CHOOSE a \in ToSet(s) \cup {0} : \A b \in ToSet(s) \cup {0} : b <= a
ImgBad(s, e) == LabBad(s.w, Qual(e), e.lab, IF "n" \in DOMAIN e THEN e.n ELSE Max0(e.lab))
ImgNext(s, e) ==
  LET R == { l \in ToSet(e.lab) : l # 0 } IN
  [s EXCEPT !.t = s.t + 1, !.last = e.lab, !.fresh = FALSE, !.N = s.N \cup { <<s.t, l>> : l \in R },
            !.L = IF s.t = 0 THEN s.L ELSE s.L \cup { << <<s.t - 1, s.last[i]>>, <<s.t, e.lab[i]>> >> : i \in { j \in DOMAIN e.lab : e.lab[j] # 0 /\ s.last[j] # 0 } }]

Times(N) == { n[1] : n \in N }
Evs(s, a, b) == { <<a, b, x[1], x[2], Kind(x)>> : x \in EventsIn(s.N, s.L, a, b) }
Detect(s, e) == IF Len(e.i) = 2 THEN { x \in s.EV : <<x[1], x[2]>> # <<e.i[1], e.i[2]>> } \cup Evs(s, e.i[1], e.i[2])
  ELSE UNION { Evs(s, p[1], p[2]) : p \in { q \in Times(s.N) \X Times(s.N) : q[1] < q[2] /\ ~\E t \in Times(s.N) : q[1] < t /\ t < q[2] } }
GlobBad(s, g) ==  \* g: <<t, l, label>>
  LET lbl(n) == (CHOOSE x \in ToSet(g) : x[1] = n[1] /\ x[2] = n[2])[3] IN
  IF { <<x[1], x[2]>> : x \in ToSet(g) } # s.N THEN {"labelled-nodes"}
  ELSE IF { { n \in s.N : lbl(n) = k } : k \in { x[3] : x \in ToSet(g) } } # Chains(s.N, s.L) THEN {"global-labels"} ELSE {}
GraphBad(s, e) ==
  LET lk == { << <<x[1], x[2]>>, <<x[3], x[4]>> >> : x \in ToSet(e.e) } IN
  (IF { <<x[1], x[2]>> : x \in ToSet(e.n) } # s.N \/ ToSet(e.dn) # ToSet(e.n) THEN {"nodes"} ELSE {})
  \cup (IF lk # s.L \/ ToSet(e.de) # ToSet(e.e) THEN {"links"} ELSE {})
  \cup (IF ToSet(e.ts) # Times(s.N) \/ Len(e.ts) # Cardinality(Times(s.N)) THEN {"timesteps"} ELSE {})
  \cup (IF s.fresh THEN GlobBad(s, e.g) ELSE {})
  \cup (IF { <<x.a, x.b, ToSet(x.l), ToSet(x.r), x.k>> : x \in ToSet(e.ev) } # s.EV THEN {"events"} ELSE {})
  \cup (IF Len(e.ev) # Cardinality(s.EV) THEN {"event-twice"} ELSE {})
CBad(s, e) == CASE e.op = "img" -> ImgBad(s, e) [] e.op = "graph" -> GraphBad(s, e) [] OTHER -> {}
CApply(s, e) ==
  CASE e.op = "img" -> ImgNext(s, e)
    [] e.op = "node" -> [s EXCEPT !.N = s.N \cup {<<e.n[1], e.n[2]>>}, !.fresh = FALSE]
    [] e.op = "edge" -> LET a == <<e.n[1], e.n[2]>> b == <<e.n[3], e.n[4]>> IN [s EXCEPT !.N = s.N \cup {a, b}, !.L = s.L \cup {<<a, b>>}, !.fresh = FALSE]
    [] e.op = "relabel" -> [s EXCEPT !.fresh = TRUE]
    [] e.op = "detect" -> [s EXCEPT !.EV = Detect(s, e)]
    [] OTHER -> s
====
