---- MODULE PointQuery ----
(***************************************************************************)
(* Point queries: nearest stored point, and the triangle of a mesh that    *)
(* contains a point.  Definitions over integer coordinates.  A triangle is *)
(* a sequence of three points; a point set a sequence of points.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dist2(p, q) == LET RECURSIVE S(_)
                   S(k) == IF k = 0 THEN 0 ELSE (p[k] - q[k]) * (p[k] - q[k]) + S(k - 1)
               IN S(Len(p))

\* i is (the index of) a point of ps nearest to x
IsNearest(ps, x, i) == i \in 1..Len(ps) /\ \A j \in 1..Len(ps) : Dist2(ps[i], x) <= Dist2(ps[j], x)

\* twice the signed area of (a, b, c)
Area(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])

\* numerators of the barycentric coordinates of x in triangle s; the denominator is Area of s; oriented to be positive
Num(s, x) == LET d == Area(s[1], s[2], s[3])
                 g == IF d < 0 THEN -1 ELSE 1
             IN << g * Area(x, s[2], s[3]), g * Area(s[1], x, s[3]), g * Area(s[1], s[2], x) >>
Den(s) == LET d == Area(s[1], s[2], s[3]) IN IF d < 0 THEN -d ELSE d

\* triangles are closed sets
Inside(s, x) == LET n == Num(s, x) IN n[1] >= 0 /\ n[2] >= 0 /\ n[3] >= 0

\* a real v recorded as floor(4096 v + 1/2) represents num/den
Real(v, num, den) == LET e == v * den - 4096 * num IN e <= 2 * den /\ e >= -2 * den
====
