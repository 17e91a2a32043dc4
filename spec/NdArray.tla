---- MODULE NdArray ----
(***************************************************************************)
(* Multi-dimensional arrays.  An array is a record                         *)
(*   d  sizes of its dimensions, the first one running fastest             *)
(*   c  how many leading dimensions are components                         *)
(*   v  its elements in storage order                                      *)
(* Every operation says where the element at an index comes from.          *)
(* Indices and coordinates count from zero.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE ProdF(_, _)
ProdF(d, i) == IF i = 0 THEN 1 ELSE d[i] * ProdF(d, i - 1)
Prod(d) == ProdF(d, Len(d))

RECURSIVE LinF(_, _, _)
LinF(d, x, i) == IF i > Len(d) THEN 0 ELSE x[i] + d[i] * LinF(d, x, i + 1)
Lin(d, x) == LinF(d, x, 1)                          \* position of index x
Index(d, k) == [i \in 1..Len(d) |-> (k \div ProdF(d, i - 1)) % d[i]]     \* index at position k

At(a, x) == a.v[Lin(a.d, x) + 1]
Inside(d, x) == \A i \in 1..Len(d) : x[i] \in 0..(d[i] - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* the array of shape d whose element at index x is that of array a at index F(x)
Pull(a, d, F(_)) == [d |-> d, c |-> 0, v |-> [k \in 1..Prod(d) |-> At(a, F(Index(d, k - 1)))]]
Add2(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
Zeros(n) == [i \in 1..n |-> 0]

Slice(a, st, sz) == Pull(a, sz, LAMBDA x : Add2(x, st))
\* a box given for the dimensions that are not components takes all components
SubBox(a, st, sz) ==
  LET m == Len(a.d) - Len(st)
      s == IF m > 0 THEN Zeros(a.c) \o st ELSE st
      z == IF m > 0 THEN SubSeq(a.d, 1, a.c) \o sz ELSE sz
  IN [Slice(a, s, z) EXCEPT !.c = a.c]
Transpose(a) == Pull(a, Rev(a.d), Rev)
SliceTime(a, t) == Pull(a, Front(a.d), LAMBDA x : Append(x, t))
Stack(as) ==
  LET d == Append(as[1].d, Len(as))
  IN [d |-> d, c |-> 0, v |-> [k \in 1..Prod(d) |-> LET x == Index(d, k - 1) IN At(as[x[Len(x)] + 1], Front(x))]]
Concat(as) ==
  LET d == <<Len(as)>> \o as[1].d
  IN [d |-> d, c |-> 0, v |-> [k \in 1..Prod(d) |-> LET x == Index(d, k - 1) IN At(as[x[1] + 1], Tail(x))]]
Map(a, F(_)) == [a EXCEPT !.v = [k \in DOMAIN a.v |-> F(a.v[k])]]
Plus(a, b) == [a EXCEPT !.v = [k \in DOMAIN a.v |-> a.v[k] + b.v[k]]]
Clamp(a, l, h) == Map(a, LAMBDA x : IF x < l THEN l ELSE IF x > h THEN h ELSE x)
AbsV(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(a) == {a.v[k] : k \in DOMAIN a.v}
Big == 2000000000
Stats(a) ==
  LET S == Range(a)
      N == {AbsV(x) : x \in S} \ {0}
  IN <<MinOf(S), MaxOf(S), MaxOf({AbsV(x) : x \in S}), IF N = {} THEN Big ELSE MinOf(N)>>

\* multilinear interpolation at the point q/4, 64 times the value
LerpInside(a, q) == \A i \in 1..Len(q) : q[i] >= 0 /\ q[i] < 4 * (a.d[a.c + i] - 1)
Pow4(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 4 ELSE IF n = 2 THEN 16 ELSE 64
RECURSIVE LerpAt(_, _, _, _)      \* k: the first k coordinates of x are already grid indices
LerpAt(a, q, x, i) ==
  IF i > Len(q) THEN At(a, x)
  ELSE LET b == q[i] \div 4
           m == q[i] % 4
       IN (4 - m) * LerpAt(a, q, Append(x, b), i + 1) + (IF m = 0 THEN 0 ELSE m * LerpAt(a, q, Append(x, b + 1), i + 1))
Lerp(a, q) ==
  LET s == 64 \div Pow4(Len(q))
  IN IF a.c = 0 THEN <<s * LerpAt(a, q, <<>>, 1)>>
     ELSE [k \in 1..a.d[1] |-> s * LerpAt(a, q, <<k - 1>>, 1)]
====
