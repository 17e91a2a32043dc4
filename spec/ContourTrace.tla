---- MODULE ContourTrace ----
(***************************************************************************)
(* Level-set trackers: points, pieces, labels and slices of recorded runs  *)
(* against Contour on the mesh of CPMesh.                                  *)
(*  h: dims lo sz N nd T thr2 (twice the threshold) s (values per time)    *)
(***************************************************************************)
EXTENDS TraceCases, CPMesh, Contour
FS == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Range2(s) == {s[i] : i \in DOMAIN s}
Inside(h) == {g \in 0..(h.T * h.N - 1) : 2 * h.s[(g \div h.N) + 1][(g % h.N) + 1] <= h.thr2}
CStart(r) ==
  LET h == r.h
      space == TLCEval(SpaceCells(h))
      In == TLCEval(Inside(h))
      ords == TLCEval([t \in 0..(h.T - 1) |-> Ordinals(space, h.N, t)])
      slabs == TLCEval(IF h.T = 1 THEN {} ELSE UNION {SlabCells(space, h.N, t) : t \in 0..(h.T - 2)})
      mixed(C) == {c \in C : Elems(c) \cap In # {} /\ Elems(c) \ In # {}}
  IN [h |-> h, In |-> In, ords |-> ords,
      cells |-> TLCEval(mixed(slabs)),
      edges |-> TLCEval(UNION {CrossedOf(c, In) : c \in mixed(slabs)} \cup UNION {UNION {CrossedOf(c, In) : c \in mixed(ords[t])} : t \in 0..(h.T - 1)}),
      pts |-> <<>>, sp |-> <<>>, id |-> <<>>]
CStartBad(r) == {}
If(b, name) == IF b THEN {name} ELSE {}

\* ---------------------------------------------------------------- points
Coord(h, g, k) == IF k > h.nd THEN g \div h.N ELSE ((g % h.N) \div Stride(h.dims, k)) % h.dims[k]
Val(h, g) == h.s[(g \div h.N) + 1][(g % h.N) + 1]
GoodPos(h, p) == LET a == p.f[1] b == p.f[2] D == 2 * (Val(h, b) - Val(h, a)) m == h.thr2 - 2 * Val(h, a) IN
  \A k \in 1..(h.nd + 1) : Abs(p.x[k] * D - FS * (Coord(h, a, k) * D + m * (Coord(h, b, k) - Coord(h, a, k)))) <= 2 * Abs(D)
PointsBad(st, e) ==
  LET h == st.h F == {e.p[i].f : i \in DOMAIN e.p} IN
  If(Cardinality(F) # Len(e.p), "duplicate") \cup If(F \ st.edges # {}, "spurious") \cup If(st.edges \ F # {}, "missing") \cup
  UNION {LET p == e.p[i] IN IF p.f \notin st.edges THEN {} ELSE
     If(p.g # p.f, "tag") \cup If(~GoodPos(h, p), "position") \cup
     If(p.ts # p.f[1] \div h.N, "timestep") \cup If(p.o # (p.f[1] \div h.N = p.f[2] \div h.N), "ordinal") \cup
     If(h.nd = 3 /\ Abs(p.s - h.ex) > 2, "value") : i \in DOMAIN e.p}

\* ---------------------------------------------------------------- pieces
SortSet(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i < j => s[i] < s[j]
RECURSIVE Close(_, _)
Close(S, R) == LET n == S \cup UNION {r \in R : r \cap S # {}} IN IF n = S THEN S ELSE Close(TLCEval(n), R)
RECURSIVE Comps(_, _)
Comps(V, R) == IF V = {} THEN {} ELSE LET c == Close({CHOOSE v \in V : TRUE}, R) IN {c} \cup Comps(TLCEval(V \ c), R)
Pieces(st, e) == [i \in DOMAIN e.s |-> {st.pts[e.p[e.s[i][k] + 1] + 1] : k \in DOMAIN e.s[i]}]
Valid(st, e) == /\ Range2(e.p) \subseteq 0..(Len(st.pts) - 1)
                /\ \A i \in DOMAIN e.s : Range2(e.s[i]) \subseteq 0..(Len(e.p) - 1)
SurfaceBad(st, e) ==
  IF ~Valid(st, e) THEN {"foreign-points"} ELSE
  LET P == TLCEval(Pieces(st, e))
      spans == TLCEval([i \in DOMAIN P |-> Span(P[i])])
      cov == TLCEval({Elems(c) : c \in st.cells})
      over == {i \in DOMAIN P : spans[i] \notin cov}
      fill == TLCEval([c \in st.cells |-> {P[i] : i \in {j \in DOMAIN P : spans[j] = Elems(c)}}])
      wrong == {c \in st.cells : fill[c] \notin Fillings(c, st.In)}
      F == TLCEval(UNION {Faces1(P[i]) : i \in DOMAIN P})
      comps == Comps(0..(Len(e.p) - 1), {{e.s[i][k] : k \in DOMAIN e.s[i]} : i \in DOMAIN e.s})
  IN If(Cardinality(Range2(e.p)) # Len(st.pts) \/ Len(e.p) # Len(st.pts), "surface-points") \cup
     If(over # {}, "piece-outside") \cup
     If(\E c \in st.cells : fill[c] = {}, "hole") \cup If(\E c \in wrong : fill[c] # {}, "overlap") \cup
     If(Len(P) # Cardinality(Range2(P)), "piece-twice") \cup
     If(\E f \in F : Cardinality({S \in Range2(P) : f \subseteq S}) > 2, "branching") \cup
     If(over = {} /\ wrong = {} /\ ~(\A c \in st.cells : \A w \in Facets(c) :
           LET o == {d \in st.cells : d # c /\ Elems(w) \subseteq Elems(d)}
               on(d) == {f \in Border(fill[d]) : Span(f) \subseteq Elems(w)}
           IN \A d \in o : on(c) = on(d)), "not-watertight") \cup
     If(Len(e.id) # Len(e.p) \/ \E c \in comps : Cardinality({e.id[i + 1] : i \in c}) # 1, "label-split") \cup
     If(Cardinality(Range2(e.id)) < Cardinality(comps), "label-shared")

\* ---------------------------------------------------------------- slices
AtT(st, t) == {i \in 0..(Len(st.sp) - 1) : LET f == st.sp[i + 1] IN f[1] \div st.h.N = t /\ f[2] \div st.h.N = t}
MixedAt(st, t) == {c \in st.ords[t] : Elems(c) \cap st.In # {} /\ Elems(c) \ st.In # {}}
Slice2Bad(st, e) ==
  LET all == [i \in DOMAIN e.curves |-> e.curves[i].p]
      used == UNION {Range2(all[i]) : i \in DOMAIN all}
      F[i \in 0..Len(all)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(all[i])
      V == AtT(st, e.t)
  IN IF used # V \/ F[Len(all)] # Cardinality(V) THEN {"slice-points"} ELSE
     LET pairs == IF st.h.T = 1 THEN {} ELSE {{i \in V : st.sp[i + 1] \in EdgesOf(c)} : c \in MixedAt(st, e.t)}
         Adj(a, b) == {a, b} \in pairs
     IN UNION {LET q == all[i] n == Len(q) IN
          If(\E k \in 1..(n - 1) : ~Adj(q[k], q[k + 1]), "slice-jump") \cup
          If(n # 2 /\ e.curves[i].loop # (n > 2 /\ Adj(q[1], q[n])), "slice-loop") \cup
          If(\E k \in 1..n : e.curves[i].ids[k] # st.id[q[k] + 1] \/ e.curves[i].k # st.id[q[k] + 1], "slice-label") : i \in DOMAIN all} \cup
        If(Len(all) # Cardinality(Comps(V, pairs)), "slice-split")
Slice3Bad(st, e) ==
  LET V == AtT(st, e.t) IN
  IF Range2(e.pts) # V \/ Len(e.pts) # Cardinality(V) THEN {"slice-points"}
  ELSE IF \E i \in DOMAIN e.tris : ~(Range2(e.tris[i]) \subseteq 0..(Len(e.pts) - 1)) THEN {"slice-foreign"} ELSE
  LET P == TLCEval([i \in DOMAIN e.tris |-> {st.sp[e.pts[e.tris[i][k] + 1] + 1] : k \in 1..3}])
      cells == MixedAt(st, e.t)
  IN If(\E i \in DOMAIN P : Span(P[i]) \notin {Elems(c) : c \in cells}, "slice-outside") \cup
     If(Len(P) # Cardinality(Range2(P)), "slice-twice") \cup
     If(e.t < st.h.T - 1 /\ \E c \in cells : {S \in Range2(P) : Span(S) = Elems(c)} \notin Fillings(c, st.In), "slice-hole")

CBad(st, e) == CASE e.op = "points" -> PointsBad(st, e)
                 [] e.op = "surface" -> SurfaceBad(st, e)
                 [] e.op = "slice" -> IF st.h.nd = 2 THEN Slice2Bad(st, e) ELSE Slice3Bad(st, e)
                 [] OTHER -> {"unknown-event"}
CApply(st, e) == CASE e.op = "points" -> [st EXCEPT !.pts = TLCEval([i \in DOMAIN e.p |-> e.p[i].f])]
                   [] e.op = "surface" -> [st EXCEPT !.sp = TLCEval([i \in DOMAIN e.p |-> st.pts[e.p[i] + 1]]), !.id = e.id]
                   [] OTHER -> st
====
