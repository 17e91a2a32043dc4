---- MODULE CurveTrace ----
(* Conformance of trajectory edits (F02): see Curve.  Every event carries the complete set of curves after the
   operation, in order; points carry type ty, timestep ts, time t (eighths), ordinal o, position x (halves), scalar s,
   velocity v (quarters), tag g, identifier i.  Statistics are compared where st holds. *)
EXTENDS TraceCases, Curve
ToSet(s) == { s[i] : i \in DOMAIN s }
CStart(r) == r.cs
CStartBad(r) == {}
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Bag(s) == [x \in ToSet(s) |-> Cardinality({ i \in DOMAIN s : s[i] = x })]
Bare(k) == [key |-> k.key, id |-> k.id, loop |-> k.loop, complete |-> k.complete, p |-> k.p]
Bares(s) == [i \in DOMAIN s |-> Bare(s[i])]
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]

StatBad(k) == LET p == k.p S == k.st I == DOMAIN p IN
  IF p = <<>> THEN {} ELSE
  (IF S.tmin # MinOf({ p[i].t : i \in I }) \/ S.tmax # MaxOf({ p[i].t : i \in I }) THEN {"time-range"} ELSE {})
  \cup (IF S.max # MaxOf({ p[i].s : i \in I }) \/ S.min # MinOf({ p[i].s : i \in I }) \/ S.per # S.max - S.min THEN {"extremes"} ELSE {})
  \cup (IF \E d \in 1..3 : S.lo[d] # MinOf({ p[i].x[d] : i \in I }) \/ S.hi[d] # MaxOf({ p[i].x[d] : i \in I }) THEN {"bounding-box"} ELSE {})
  \cup (IF S.vmin # MinOf({ Sq(p[i].v) : i \in I }) \/ S.vmax # MaxOf({ Sq(p[i].v) : i \in I }) THEN {"speed-range"} ELSE {})
  \cup (IF S.ct # (IF Same(p) THEN p[1].ty ELSE 0) THEN {"consistent-type"} ELSE {})
StatsBad(e) == IF e.st THEN UNION { StatBad(e.cs[i]) : i \in DOMAIN e.cs } ELSE {}

Each(s, e, R(_, _, _)) == IF Len(s) = Len(e.cs) /\ \A i \in DOMAIN s : R(s[i].p, s[i].loop, e.cs[i].p)
    /\ [s[i] EXCEPT !.p = <<>>] = [Bare(e.cs[i]) EXCEPT !.p = <<>>] THEN {} ELSE {e.op}
Drop(p, a) == CASE a = -1 -> ~p.o [] a = -2 -> p.ty \in {0, 1} [] OTHER -> p.ty = a
SplitAll(s) ==
  LET Piece(k, c) == [key |-> c[1].i, id |-> c[1].i, loop |-> FALSE, complete |-> FALSE, p |-> c]
      Part(k) == IF k.p = <<>> THEN <<>> ELSE IF Same(k.p) /\ k.p[1].ty # 0 THEN <<k>> ELSE [n \in DOMAIN Runs(k.p) |-> Piece(k, Runs(k.p)[n])]
      RECURSIVE All(_)
      All(j) == IF j > Len(s) THEN <<>> ELSE Part(s[j]) \o All(j + 1)
  IN All(1)
\* a consistent curve without a type may stay or be split in one piece, an empty one stay or go
Calm(s) == SelectSeq(s, LAMBDA k : k.p # <<>> /\ ~(Same(k.p) /\ k.p[1].ty = 0))
Untyped(s) == LET q == SelectSeq(s, LAMBDA k : k.p # <<>> /\ Same(k.p) /\ k.p[1].ty = 0) IN [i \in DOMAIN q |-> q[i].p]
SplitBad(s, e) == LET w == SplitAll(s) IN
  IF Bag(Calm(Bares(e.cs))) = Bag(Calm(w)) /\ Bag(Untyped(Bares(e.cs))) = Bag(Untyped(w)) THEN {} ELSE {"split"}
Vel(c) == IF Len(c) < 2 THEN c ELSE
  [i \in DOMAIN c |-> [c[i] EXCEPT !.v = [d \in 1..3 |->
      IF i = 1 THEN 2 * (c[2].x[d] - c[1].x[d]) ELSE IF i = Len(c) THEN 2 * (c[i].x[d] - c[i - 1].x[d]) ELSE c[i + 1].x[d] - c[i - 1].x[d]]]]
\* positions in halves, velocities in quarters
Smooth(c, h) == IF Cardinality(Ordinals(c)) < 2 * h + 1 THEN c ELSE SmoothOrd(c, h)
Intercept(k, a, b) == [k EXCEPT !.loop = FALSE, !.complete = FALSE, !.p =
   LET q == SelectSeq(k.p, LAMBDA x : x.t >= 8 * a /\ x.t <= 8 * b) IN [i \in DOMAIN q |-> [q[i] EXCEPT !.i = k.id]]]
InterBad(s, e) == LET w == SelectSeq([i \in DOMAIN s |-> Intercept(s[i], e.a, e.b)], LAMBDA k : k.p # <<>>) IN
  IF [i \in DOMAIN w |-> [w[i] EXCEPT !.loop = FALSE, !.complete = FALSE]] =
     [i \in DOMAIN e.cs |-> [Bare(e.cs[i]) EXCEPT !.loop = FALSE, !.complete = FALSE]] THEN {} ELSE {"intercept"}
AddBad(s, e) ==
  LET n == IF e.label >= 0 THEN e.label ELSE IF s = <<>> THEN 0 ELSE MaxOf({ s[i].key : i \in DOMAIN s }) + 1
      c == e.c new == [key |-> n, id |-> n, loop |-> c.loop, complete |-> c.complete, p |-> [i \in DOMAIN c.p |-> [c.p[i] EXCEPT !.i = n]]]
  IN IF Bag(Bares(e.cs)) = Bag(Append(s, new)) THEN {} ELSE {"add"}
Unwrapped(P, p, q) ==
  /\ Len(p) = Len(q)
  /\ \A i \in DOMAIN p : [q[i] EXCEPT !.x = p[i].x] = p[i] /\ q[i].x[1] = p[i].x[1] /\ q[i].x[2] = p[i].x[2] /\ (q[i].x[3] - p[i].x[3]) % P = 0
  /\ p # <<>> => q[1] = p[1]
  /\ \A i \in 1..(Len(q) - 1) : LET d == q[i + 1].x[3] - q[i].x[3] IN 2 * d <= P /\ 2 * d >= -P
Boxed(e) == IF \A i \in DOMAIN e.cs : e.cs[i].p = <<>> \/ LET X == { e.cs[i].p[j].x[3] : j \in DOMAIN e.cs[i].p } IN e.cs[i].st.lo[3] = MinOf(X) /\ e.cs[i].st.hi[3] = MaxOf(X) THEN {} ELSE {"bounding-box"}
RECURSIVE Geo(_)
Geo(c) == IF c = <<>> THEN <<>> ELSE
  LET Jump(i) == c[i + 1].x[1] - c[i].x[1] > 360 \/ c[i].x[1] - c[i + 1].x[1] > 360
      n == CHOOSE m \in DOMAIN c : (m = Len(c) \/ Jump(m)) /\ \A i \in 1..(m - 1) : ~Jump(i)
  IN <<SubSeq(c, 1, n)>> \o Geo(SubSeq(c, n + 1, Len(c)))
QueryBad(s, e) == IF Bares(e.cs) # s THEN {"query-changes"} ELSE UNION { LET c == s[i].p q == e.q[i] IN
  (IF [j \in DOMAIN q.runs |-> q.runs[j].p] # Runs(c) THEN {"runs"} ELSE UNION { StatBad(q.runs[j]) : j \in DOMAIN q.runs })
  \cup (IF q.geo # Geo(c) THEN {"split-geo"} ELSE {})
  \cup (IF ToSet(q.ord) # { j - 1 : j \in Ordinals(c) } \/ Len(q.ord) # Cardinality(Ordinals(c)) THEN {"ordinals"} ELSE {})
  \cup (IF ToSet(q.sel) # { j - 1 : j \in { x \in DOMAIN c : c[x].ty = e.a } } THEN {"select"} ELSE {}) : i \in DOMAIN s }
OpBad(s, e) ==
  CASE e.op = "init" -> IF Bares(e.cs) = [i \in DOMAIN s |-> s[i]] THEN {} ELSE {"init"}
    [] e.op = "rotate" -> Each(s, e, LAMBDA c, l, d : Rotated(c, l, d))
    [] e.op = "reorder" -> Each(s, e, LAMBDA c, l, d : Reordered(c, l, d))
    [] e.op = "adjust" -> Each(s, e, LAMBDA c, l, d : d = AdjustTime(c))
    [] e.op = "smooth" -> Each(s, e, LAMBDA c, l, d : d = SmoothInt(Smooth(c, e.a)))
    [] e.op = "smooth_ordinals" -> Each(s, e, LAMBDA c, l, d : d = Smooth(c, e.a))
    [] e.op = "discard" -> Each(s, e, LAMBDA c, l, d : d = Keep(c, LAMBDA p : Drop(p, e.a)))
    [] e.op = "velocity" -> Each(s, e, LAMBDA c, l, d : d = Vel(IF e.a = 1 THEN Keep(c, LAMBDA p : ~p.o) ELSE c))
    [] e.op = "relabel" -> IF Bares(e.cs) = [i \in DOMAIN s |-> [s[i] EXCEPT !.id = s[i].key + e.a, !.p = [j \in DOMAIN s[i].p |-> [s[i].p[j] EXCEPT !.i = s[i].key + e.a]]]] THEN {} ELSE {"relabel"}
    [] e.op = "unwrap" -> Each(s, e, LAMBDA c, l, d : Unwrapped(e.a, c, d)) \cup Boxed(e)
    [] e.op = "split" -> SplitBad(s, e)
    [] e.op = "filter" -> IF Bares(e.cs) = SelectSeq(s, LAMBDA k : Len(k.p) >= e.a) THEN {} ELSE {"filter"}
    [] e.op = "intercept" -> InterBad(s, e)
    [] e.op = "add" -> AddBad(s, e)
    [] e.op = "query" -> QueryBad(s, e)
    [] OTHER -> {"?"}
CBad(s, e) == OpBad(s, e) \cup StatsBad(e)
CApply(s, e) == Bares(e.cs)
====
