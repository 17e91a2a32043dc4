---- MODULE Curve ----
(* Trajectories: a curve is a sequence of points; a point has at least ty (type), ts (timestep), t (time),
   o (lies on a timestep).  The edits as relations between a curve and its result. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Same(c) == \A i \in DOMAIN c : c[i].ty = c[1].ty
RECURSIVE Runs(_)
Runs(c) == IF c = <<>> THEN <<>> ELSE
  LET n == CHOOSE m \in DOMAIN c : Same(SubSeq(c, 1, m)) /\ (m = Len(c) \/ c[m + 1].ty # c[1].ty)
  IN <<SubSeq(c, 1, n)>> \o Runs(SubSeq(c, n + 1, Len(c)))
Turn(c, k) == SubSeq(c, k + 1, Len(c)) \o SubSeq(c, 1, k)
\* rotation of a closed curve: starts where a run starts
Rotated(c, loop, d) == IF c = <<>> \/ ~loop \/ Same(c) \/ c[1].ty # c[Len(c)].ty THEN d = c
  ELSE (\E k \in DOMAIN c : d = Turn(c, k)) /\ d[1].ty # d[Len(d)].ty
Rev(c) == [i \in DOMAIN c |-> c[Len(c) + 1 - i]]
Before(p, q) == p.ts < q.ts \/ (p.ts = q.ts /\ p.t < q.t)
Reordered(c, loop, d) == d = IF c # <<>> /\ ~loop /\ Before(c[Len(c)], c[1]) THEN Rev(c) ELSE c
Keep(c, Drop(_)) == SelectSeq(c, LAMBDA p : ~Drop(p))
Ordinals(c) == { i \in DOMAIN c : c[i].o }
\* the n-th ordinal and how many ordinals there are up to i
Rank(c, i) == Cardinality({ j \in Ordinals(c) : j <= i })
Nth(c, n) == CHOOSE j \in Ordinals(c) : Rank(c, j) = n
SmoothOrd(c, h) ==
  LET K == Cardinality(Ordinals(c))
      Ty(i) == IF ~c[i].o \/ Rank(c, i) <= h \/ Rank(c, i) > K - h THEN c[i].ty
               ELSE LET W == { c[Nth(c, n)].ty : n \in ((Rank(c, i) - h)..(Rank(c, i) + h)) \ {Rank(c, i)} }
                    IN IF Cardinality(W) = 1 /\ 0 \notin W THEN CHOOSE w \in W : TRUE ELSE c[i].ty
  IN [i \in DOMAIN c |-> [c[i] EXCEPT !.ty = Ty(i)]]
SmoothInt(c) ==
  LET K == Cardinality(Ordinals(c))
      Ty(i) == LET r == Rank(c, i) IN
        IF r = 0 THEN c[Nth(c, 1)].ty ELSE IF r = K THEN c[Nth(c, K)].ty
        ELSE LET a == Nth(c, r) IN IF c[i].o THEN c[i].ty ELSE
             IF \E j \in a..i : c[j].ty # c[a].ty THEN c[Nth(c, r + 1)].ty ELSE c[a].ty
  IN IF K = 0 THEN c ELSE [i \in DOMAIN c |-> [c[i] EXCEPT !.ty = Ty(i)]]
RECURSIVE Up(_, _)
Up(c, i) == IF i > Len(c) THEN c ELSE IF c[i].o \/ c[i - 1].t <= c[i].t THEN Up(c, i + 1) ELSE Up([c EXCEPT ![i].t = c[i - 1].t], i + 1)
RECURSIVE Down(_, _)
Down(c, i) == IF i < 1 THEN c ELSE IF c[i].o \/ c[i].t <= c[i + 1].t THEN Down(c, i - 1) ELSE Down([c EXCEPT ![i].t = c[i + 1].t], i - 1)
AdjustTime(c) == Down(Up(c, 2), Len(c) - 1)
====
