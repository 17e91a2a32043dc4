---- MODULE MCPointQuery ----
(***************************************************************************)
(* The two search structures of the library as recursive searches, checked *)
(* against the definitions for every small point set / mesh and query.     *)
(*                                                                         *)
(* k-d tree: a node over a sequence of points is split at the middle in    *)
(* any way std::nth_element may leave it; the node's own point is the      *)
(* first of the right half.  A query descends to its side, keeps the       *)
(* closest point, and visits the other side unless it is farther.          *)
(*                                                                         *)
(* Quad tree over triangles: a node holding more than one triangle divides *)
(* them among four quadrants by centroid; a node's box bounds its          *)
(* triangles.  A query visits the nodes whose boxes contain it.            *)
(***************************************************************************)
EXTENDS PointQuery, TLC
CONSTANTS Kind,     \* "kd" or "quad"
          NP,       \* largest number of points / triangles
          Side,     \* coordinates 0..Side
          Wrong     \* TRUE: negative control
VARIABLES ps, x, st
vars == <<ps, x, st>>

P == (0..Side) \X (0..Side)
Q == (-1..Side + 1) \X (-1..Side + 1)

----
\* k-d tree.  order: a sequence of indices into ps
RECURSIVE Build(_, _)
Axis(l) == (l % 2) + 1
Splits(S, l) ==      \* ways to put the set S of indices into (left, middle, rest) as nth_element allows
  LET h == Cardinality(S) \div 2
      a == Axis(l)
  IN {<<L, m>> \in (SUBSET S) \X S : /\ Cardinality(L) = h /\ m \notin L
                                     /\ \A i \in L : ps[i][a] <= ps[m][a]
                                     /\ \A i \in S \ L : ps[i][a] >= ps[m][a]}
Build(S, l) ==       \* the set of trees the construction may produce
  IF Cardinality(S) = 1 THEN {<<CHOOSE i \in S : TRUE>>}
  ELSE UNION {LET L == s[1]
              IN {<<s[2], a, b>> : a \in Build(L, l + 1), b \in Build(S \ L, l + 1)} : s \in Splits(S, l)}

\* (the library's right half contains the node's own point again: S \ L contains m)
Closest(i, j) == IF i = 0 THEN j ELSE IF j = 0 THEN i ELSE IF Dist2(x, ps[i]) < Dist2(x, ps[j]) THEN i ELSE j
RECURSIVE Find(_, _)
Find(t, l) ==
  LET i == t[1]
      a == Axis(l)
      left == x[a] < ps[i][a]
      leaf == Len(t) = 1
      c1 == IF leaf THEN 0 ELSE Find(IF left THEN t[2] ELSE t[3], l + 1)
      best == Closest(c1, i)
      dp == (x[a] - ps[i][a]) * (x[a] - ps[i][a])
      far == IF Wrong THEN Dist2(x, ps[best]) > 2 * dp ELSE Dist2(x, ps[best]) >= dp
  IN IF leaf THEN i ELSE IF far THEN Closest(Find(IF left THEN t[3] ELSE t[2], l + 1), best) ELSE best

----
\* quad tree: boxes are <<ax, ay, bx, by>>, everything times 6 so that centroids and centres are integers
Box(S, M) ==
  LET X == {ps[i][k][1] : i \in S, k \in 1..3}
      Y == {ps[i][k][2] : i \in S, k \in 1..3}
      Mn(Z) == CHOOSE z \in Z : \A w \in Z : z <= w
      Mx(Z) == CHOOSE z \in Z : \A w \in Z : z >= w
  IN <<M * Mn(X), M * Mn(Y), M * Mx(X), M * Mx(Y)>>
Has(b, p) == IF Wrong THEN b[1] <= p[1] /\ p[1] < b[3] /\ b[2] <= p[2] /\ p[2] < b[4]
                      ELSE b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
RECURSIVE Locate(_, _)
\* the set of triangles a search may return: any visiting order
Locate(S, g) ==         \* g: the node's geometric box (times 3 * 2^depth); returns the triangles that a search of this node finds
  IF Cardinality(S) <= 1 THEN {i \in S : Inside(ps[i], x)}
  ELSE IF ~ Has(Box(S, 1), x) THEN {}
  ELSE LET cx == g[1] + g[3]   \* doubled boxes below
           cy == g[2] + g[4]
           m == g[5]
           C(i) == <<2 * m * (ps[i][1][1] + ps[i][2][1] + ps[i][3][1]), 2 * m * (ps[i][1][2] + ps[i][2][2] + ps[i][3][2])>>
           Quad(i) == <<IF C(i)[1] < cx * 1 THEN 0 ELSE 1, IF C(i)[2] < cy THEN 0 ELSE 1>>
           Sub(q) == {i \in S : Quad(i) = q}
           G(q) == <<IF q[1] = 0 THEN 2 * g[1] ELSE cx, IF q[2] = 0 THEN 2 * g[2] ELSE cy, IF q[1] = 0 THEN cx ELSE 2 * g[3], IF q[2] = 0 THEN cy ELSE 2 * g[4], 2 * m>>
       IN UNION {Locate(Sub(q), G(q)) : q \in {Quad(i) : i \in S}}

Root == LET b == Box(1..Len(ps), 3) IN <<b[1], b[2], b[3], b[4], 1>>

----
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Code(p) == p[1] * (Side + 1) + p[2]
Tris == {<<a, b, c>> \in P \X P \X P : Area(a, b, c) > 0 /\ Code(a) < Code(b) /\ Code(a) < Code(c)}
TCode(s) == (Code(s[1]) * 100 + Code(s[2])) * 100 + Code(s[3])
\* triangles of one mesh: different centroids
Cent(s) == <<s[1][1] + s[2][1] + s[3][1], s[1][2] + s[2][2] + s[3][2]>>

Init == st = <<"ask">> /\ x \in Q
        /\ IF Kind = "kd" THEN ps \in Seqs(P, NP)
           ELSE ps \in {s \in Seqs(Tris, NP) : \A i, j \in 1..Len(s) : i < j => TCode(s[i]) < TCode(s[j]) /\ Cent(s[i]) # Cent(s[j])}
Next == st = <<"ask">> /\ UNCHANGED <<ps, x>>
        /\ IF Kind = "kd" THEN \E t \in Build(1..Len(ps), 0) : st' = <<"near", Find(t, 0)>>
           ELSE LET F == Locate(1..Len(ps), Root) IN IF F = {} THEN st' = <<"none">> ELSE \E i \in F : st' = <<"in", i>>
Spec == Init /\ [][Next]_vars

Correct == st # <<"ask">> =>
   CASE st[1] = "near" -> IsNearest(ps, x, st[2])
     [] st[1] = "in" -> Inside(ps[st[2]], x)
     [] OTHER -> \A i \in 1..Len(ps) : ~ Inside(ps[i], x)
====
