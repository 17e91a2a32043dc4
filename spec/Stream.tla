---- MODULE Stream ----
(***************************************************************************)
(* What a stream of timesteps delivers.  The input is a series of          *)
(* timesteps x[1..n], each a sequence of numbers in thousandths.  Every    *)
(* timestep is handed to the callback exactly once, in order, smoothed in  *)
(* space, clamped, and smoothed in time (ends of the series replicated).   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Half(K) == (K + 1) \div 2
\* index (from 1) of the timestep that kernel entry i (from 1) is applied to when output k (from 0) of n is computed
Tap(k, i, K, n) == Max2(0, Min2(n - 1, k + (i - 1) - (Half(K) - 1))) + 1
RECURSIVE SumTo(_, _)
SumTo(f, m) == IF m = 0 THEN 0 ELSE f[m] + SumTo(f, m - 1)
RoundDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((b \div 2 - a) \div b)
\* smoothing in space: weights sw (fixed point, scale 10000) over a window of ks^Len(dim) values around each value, nothing outside the domain, divided by the size of the window
RECURSIVE Prod(_, _)
Prod(d, m) == IF m = 0 THEN 1 ELSE d[m] * Prod(d, m - 1)
Coord(p, d, dim) == ((p - 1) \div Prod(dim, d - 1)) % dim[d]
Off(q, d, ks) == ((((q - 1) \div ks^(d - 1)) % ks) - (ks \div 2))
Space(x, dim, ks, sw) ==
  [p \in 1..Len(x) |->
     LET q2(q) == [d \in 1..Len(dim) |-> Coord(p, d, dim) + Off(q, d, ks)]
         term == [q \in 1..Len(sw) |->
                    LET c == q2(q) IN
                    IF \A d \in 1..Len(dim): c[d] >= 0 /\ c[d] < dim[d]
                    THEN LET ix == 1 + c[1] + (IF Len(dim) > 1 THEN c[2] * dim[1] ELSE 0) + (IF Len(dim) > 2 THEN c[3] * dim[1] * dim[2] ELSE 0)
                         IN sw[q] * x[ix]
                    ELSE 0]
     IN RoundDiv(SumTo(term, Len(sw)), 10000 * Len(sw))]
Clamp(x, c) == IF c = <<>> THEN x ELSE [p \in 1..Len(x) |-> Max2(1000 * c[1], Min2(1000 * c[2], x[p]))]
Time(y, k, tw, ts) == IF tw = <<>> THEN y[k + 1]
                      ELSE [p \in 1..Len(y[1]) |-> RoundDiv(SumTo([i \in 1..Len(tw) |-> tw[i] * y[Tap(k, i, Len(tw), Len(y))][p]], Len(tw)), ts)]
====
