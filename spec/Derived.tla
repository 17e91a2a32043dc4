---- MODULE Derived ----
(***************************************************************************)
(* Fields derived from fields: central differences on grids (gradients,    *)
(* Jacobians, vorticity, products), convolutions, and gradients, smoothing *)
(* and kernels on triangle meshes.  Everything is integer: a derived value *)
(* is given as its exact multiple by a fixed factor (2 where the library   *)
(* halves, the size of a kernel where it divides by it, ...).              *)
(*                                                                         *)
(* A grid field F is a function C[c][x] of a component number (from 0) and *)
(* a position (a sequence of coordinates from 0) over the sizes s; a       *)
(* derived field gives to a position the sequence of its components.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

At(x, a, d) == [x EXCEPT ![a] = @ + d]
Interior(s, x, b, n) == \A a \in 1..n : x[a] >= b /\ x[a] < s[a] - b
ClampTo(s, x) == [a \in DOMAIN x |-> IF x[a] < 0 THEN 0 ELSE IF x[a] > s[a] - 1 THEN s[a] - 1 ELSE x[a]]

\* twice the central difference of component c along axis a
D(C(_, _), c, x, a) == C(c, At(x, a, 1)) - C(c, At(x, a, -1))
\* the same with positions outside the grid moved to its border
DC(C(_, _), s, c, x, a) == C(c, ClampTo(s, At(x, a, 1))) - C(c, ClampTo(s, At(x, a, -1)))

Zero(n) == [i \in 1..n |-> 0]
If(b, v) == IF b THEN v ELSE Zero(Len(v))

\* in the order of storage: the first index of a matrix varies fastest
Mat(n, E(_, _)) == [i \in 1..(n * n) |-> E((i - 1) % n, (i - 1) \div n)]

Grad2(C(_, _), s, W, x) == <<DC(C, s, 0, x, 1) * (W[1] - 1), DC(C, s, 0, x, 2) * (W[2] - 1)>>
Jac2(C(_, _), s, W, x) == Mat(2, LAMBDA i, j : DC(C, s, i, x, j + 1) * (W[j + 1] - 1))
Jac2Sym(C(_, _), s, W, x) ==      \* doubled
  LET J == Jac2(C, s, W, x) IN <<2 * J[1], J[2] + J[3], J[2] + J[3], 2 * J[4]>>
Grad2t(C(_, _), s, x) ==          \* doubled
  IF Interior(s, x, 1, 2) THEN <<D(C, 0, x, 1) * (s[1] - 1), D(C, 0, x, 2) * (s[2] - 1)>> ELSE Zero(2)
Jac2t(C(_, _), s, x) ==           \* doubled
  IF Interior(s, x, 2, 2) THEN Mat(2, LAMBDA i, j : D(C, i, x, j + 1) * (s[j + 1] - 1)) ELSE Zero(4)
Grad3(C(_, _), s, x) ==           \* doubled; also with time as fourth axis
  IF Interior(s, x, 1, 3) THEN [a \in 1..3 |-> D(C, 0, x, a)] ELSE Zero(3)
Jac3(C(_, _), s, b, x) ==         \* doubled; also with time as fourth axis
  IF Interior(s, x, b, 3) THEN Mat(3, LAMBDA i, j : D(C, i, x, j + 1)) ELSE Zero(9)
Vort3(C(_, _), s, x) ==
  IF Interior(s, x, 1, 3)
  THEN <<D(C, 2, x, 2) - D(C, 1, x, 3), D(C, 0, x, 3) - D(C, 2, x, 1), D(C, 1, x, 1) - D(C, 0, x, 2)>>
  ELSE Zero(3)
CrossV(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Vec(C(_, _), x) == <<C(0, x), C(1, x), C(2, x)>>
Cross3(C(_, _), E(_, _), s, x) == IF Interior(s, x, 1, 3) THEN CrossV(Vec(C, x), Vec(E, x)) ELSE Zero(3)
\* J v and J^T v, doubled
Jv(C(_, _), s, x) ==
  IF Interior(s, x, 1, 3)
  THEN [i \in 1..3 |-> D(C, i - 1, x, 1) * C(0, x) + D(C, i - 1, x, 2) * C(1, x) + D(C, i - 1, x, 3) * C(2, x)]
  ELSE Zero(3)
JTv(C(_, _), s, x) ==
  IF Interior(s, x, 1, 3)
  THEN [i \in 1..3 |-> D(C, 0, x, i) * C(0, x) + D(C, 1, x, i) * C(1, x) + D(C, 2, x, i) * C(2, x)]
  ELSE Zero(3)

----
\* convolution: k is the kernel over sizes ks, p the padding (zeros outside); the library divides by the kernel's number of values
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumOver(S \ {e}, f)
Sum(S, f(_)) == SumOver(S, [e \in S |-> f(e)])
RECURSIVE Box(_)
Box(s) == IF s = <<>> THEN {<<>>} ELSE { <<i>> \o r : i \in 0..s[1] - 1, r \in Box(Tail(s)) }
Inside(s, x) == \A a \in DOMAIN s : x[a] >= 0 /\ x[a] < s[a]
ConvSize(s, ks, p) == [a \in DOMAIN s |-> s[a] + 2 * p - ks[a] + 1]
Conv(C(_), s, K(_), ks, p, x) ==
  Sum(Box(ks), LAMBDA k : LET y == [a \in DOMAIN s |-> x[a] - p + k[a]] IN IF Inside(s, y) THEN C(y) * K(k) ELSE 0)

----
\* triangle meshes: P points (from 0), T triangles (sequence of three vertices each), f a value per vertex
Area2(P(_), t) == (P(t[2])[1] - P(t[1])[1]) * (P(t[3])[2] - P(t[1])[2]) - (P(t[3])[1] - P(t[1])[1]) * (P(t[2])[2] - P(t[1])[2])
\* gradient of the linear function on the triangle, times its doubled area
CellGrad(P(_), f(_), t) ==
  LET a == f(t[2]) - f(t[1])
      b == f(t[3]) - f(t[1])
  IN <<a * (P(t[3])[2] - P(t[1])[2]) - b * (P(t[2])[2] - P(t[1])[2]),
       b * (P(t[2])[1] - P(t[1])[1]) - a * (P(t[3])[1] - P(t[1])[1])>>
Around(T, v) == { i \in DOMAIN T : v \in {T[i][1], T[i][2], T[i][3]} }
\* for meshes of triangles of doubled area 1: the mean over the triangles around v, times m
VertGrad(P(_), T, f(_), v, m) ==
  LET A == Around(T, v)
      g(c) == Sum(A, LAMBDA i : Area2(P, T[i]) * CellGrad(P, f, T[i])[c])     \* the area is 1 or -1
  IN <<(m * g(1)) \div Cardinality(A), (m * g(2)) \div Cardinality(A)>>

Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
\* vertices of the kernel of v: those reached from v through edges between vertices nearer than the limit (squared)
Neigh(T, v) == UNION { {T[i][1], T[i][2], T[i][3]} : i \in Around(T, v) } \ {v}
RECURSIVE Grow(_, _, _)
Grow(S, T, A) == LET S1 == S \cup (A \cap UNION { Neigh(T, v) : v \in S }) IN IF S1 = S THEN S ELSE Grow(S1, T, A)
Kernel(P(_), T, v, lim2) ==
  LET V == UNION { {T[i][1], T[i][2], T[i][3]} : i \in DOMAIN T }
  IN Grow({v}, T, { w \in V : Dist2(P(v), P(w)) < lim2 })
\* smoothing with weights w over the kernel k (sequence of <<vertex, weight>>), sigma squared = q:
\* the value, q * its derivative and q*q * its second derivatives with respect to the position of v
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Smooth(f(_), k) == SumSeq([i \in DOMAIN k |-> f(k[i][1]) * k[i][2]])
SmoothGrad(P(_), f(_), v, k) ==
  [c \in 1..2 |-> SumSeq([i \in DOMAIN k |-> f(k[i][1]) * k[i][2] * (P(k[i][1])[c] - P(v)[c])])]
SmoothJac(P(_), f(_), v, k, q) ==
  LET d(i, c) == P(k[i][1])[c] - P(v)[c]
      h(a, b) == SumSeq([i \in DOMAIN k |-> f(k[i][1]) * k[i][2] * (d(i, a) * d(i, b) - (IF a = b THEN q ELSE 0))])
  IN <<h(1, 1), h(1, 2), h(1, 2), h(2, 2)>>

----
\* simplices with volume 1: gradient of the linear function with values f at the points X (n+1 points of n coordinates)
Sub(p, q) == [a \in DOMAIN p |-> p[a] - q[a]]
Det2(u, v) == u[1] * v[2] - u[2] * v[1]
Det3(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
Unit(X) == LET n == Len(X) - 1 E == [i \in 1..n |-> Sub(X[i + 1], X[1])]
           IN IF n = 2 THEN Det2(E[1], E[2]) \in {1, -1} ELSE Det3(E[1], E[2], E[3]) \in {1, -1}
IsGrad(X, f, g) == \A i \in 2..Len(X) : SumSeq([a \in DOMAIN g |-> g[a] * (X[i][a] - X[1][a])]) = f[i] - f[1]
====
