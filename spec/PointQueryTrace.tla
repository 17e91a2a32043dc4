---- MODULE PointQueryTrace ----
(***************************************************************************)
(* Queries recorded from the k-d tree, the point locator of triangle       *)
(* meshes and the interpolation built on it.                               *)
(* Header h: k (kind), p (points), t (triangles, vertex numbers from 0),   *)
(* f (field per vertex).  One event per query.                             *)
(***************************************************************************)
EXTENDS TraceCases, PointQuery

CStart(r) == r.h
CStartBad(r) == IF r.h.ok THEN {} ELSE {"built"}
CApply(st, e) == st

V(st, i) == st.p[i + 1]
Tri(st, i) == LET t == st.t[i + 1] IN <<V(st, t[1]), V(st, t[2]), V(st, t[3])>>
Hit(st, x) == {i \in 0..Len(st.t) - 1 : Inside(Tri(st, i), x)}

CBad(st, e) ==
  CASE e.op = "near" ->
       (IF \A i \in 1..Len(e.r) : IsNearest(st.p, e.x, e.r[i] + 1) THEN {} ELSE {"nearest"})
    [] e.op = "leaf" -> IF e.r >= 0 /\ e.r < Len(st.p) THEN {} ELSE {"leaf"}
    [] e.op = "locate" ->
       LET H == Hit(st, e.x)
       IN IF e.r = -1 THEN (IF H = {} THEN {} ELSE {"missed"})
          ELSE IF e.r \notin H THEN {"not-inside"}
          ELSE LET s == Tri(st, e.r)
                   n == Num(s, e.x)
                   d == Den(s)
               IN (IF \A k \in 1..3 : Real(e.mu[k], n[k], d) THEN {} ELSE {"barycentric"})
                  \cup (IF e.bvh THEN {"overload"} ELSE {})
    [] e.op = "eval" ->
       LET H == Hit(st, e.x)
       IN IF ~ e.r THEN (IF H = {} THEN {} ELSE {"missed"})
          ELSE IF \E i \in H : LET s == Tri(st, i)
                                   n == Num(s, e.x)
                                   t == st.t[i + 1]
                               IN \A c \in 1..Len(e.v) : Real(e.v[c], n[1] * st.f[t[1] + 1][c] + n[2] * st.f[t[2] + 1][c] + n[3] * st.f[t[3] + 1][c], Den(s))
               THEN {} ELSE {"value"}
    [] e.op = "tree" ->       \* the flattened quad tree: every triangle in exactly one leaf below boxes that contain it
       LET N == e.n
           Leaves == {i \in 1..Len(N) : N[i].t >= 0}
           RECURSIVE Up(_)
           Up(i) == {i} \cup (IF N[i].p < 0 THEN {} ELSE Up(N[i].p + 1))
           In(b, q) == b[1] <= q[1] /\ q[1] <= b[3] /\ b[2] <= q[2] /\ q[2] <= b[4]
       IN (IF \A t \in 0..Len(st.t) - 1 : Cardinality({i \in Leaves : N[i].t = t}) = 1 THEN {} ELSE {"leaves"})
          \cup (IF \A i \in Leaves : N[i].v = st.t[N[i].t + 1] /\ N[i].xy = Tri(st, N[i].t) THEN {} ELSE {"leaf-data"})
          \cup (IF \A i \in Leaves : \A j \in Up(i) : \A k \in 1..3 : In(N[j].b, N[i].xy[k]) THEN {} ELSE {"boxes"})
          \cup (IF \A i \in 1..Len(N) : \A c \in 1..4 : N[i].c[c] >= 0 => N[N[i].c[c] + 1].p = i - 1 THEN {} ELSE {"children"})
    [] OTHER -> {"op"}
====
