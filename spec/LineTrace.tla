---- MODULE LineTrace ----
(***************************************************************************)
(* Line trackers: points, surfaces, lines, labels and slices of recorded   *)
(* runs against Line on the mesh of CPMesh.                                *)
(*  h: dims lo N T kind, d (values per time, the components of a vertex    *)
(*     together).  kind: uv - the pair itself; sh - v x (grad v) v; ldg -  *)
(*     v x curl v; rv - as sh for the gradient of a scalar field.          *)
(***************************************************************************)
EXTENDS TraceCases, SoS, CPMesh, Line
R == INSTANCE Derived
FS == 4096
SS == 64     \* of the values carried by points
Abs(x) == IF x < 0 THEN -x ELSE x
Range2(s) == {s[i] : i \in DOMAIN s}
If(b, name) == IF b THEN {name} ELSE {}

\* ---------------------------------------------------------------- fields
SC(h, s) == [k \in 1..3 |-> (s \div Stride(h.dims, k)) % h.dims[k]]
Flt(h, x) == x[1] + x[2] * h.dims[1] + x[3] * h.dims[1] * h.dims[2]
\* what is followed at time t: per vertex the triple (u, v, rest), times 2 (sh), 16 (rv)
Field(h, t) ==
  LET d == h.d[t + 1]
      V(c, x) == d[3 * Flt(h, x) + c + 1]
      S(c, x) == d[Flt(h, x) + 1]
  IN CASE h.kind = "uv" -> [s \in 0..(h.N - 1) |-> <<d[2 * s + 1], d[2 * s + 2], 0>>]
       [] h.kind = "sh" -> LET j == TLCEval([s \in 0..(h.N - 1) |-> R!Jv(V, h.dims, SC(h, s))]) J(c, x) == j[Flt(h, x)][c + 1]
                           IN [s \in 0..(h.N - 1) |-> R!Cross3(V, J, h.dims, SC(h, s))]
       [] h.kind = "ldg" -> LET j == TLCEval([s \in 0..(h.N - 1) |-> R!Vort3(V, h.dims, SC(h, s))]) J(c, x) == j[Flt(h, x)][c + 1]
                            IN [s \in 0..(h.N - 1) |-> R!Cross3(V, J, h.dims, SC(h, s))]
       [] OTHER -> LET g == TLCEval([s \in 0..(h.N - 1) |-> R!Grad3(S, h.dims, SC(h, s))]) G(c, x) == g[Flt(h, x)][c + 1]
                       j == TLCEval([s \in 0..(h.N - 1) |-> R!Jv(G, h.dims, SC(h, s))]) J(c, x) == j[Flt(h, x)][c + 1]
                   IN [s \in 0..(h.N - 1) |-> R!Cross3(G, J, h.dims, SC(h, s))]

CStart(r) ==
  LET h == r.h
      fld == TLCEval([t \in 0..(h.T - 1) |-> TLCEval(Field(h, t))])
      W(g) == fld[g \div h.N][g % h.N]
      uv(g) == LET w == W(g) IN <<w[1], w[2]>>
      space == TLCEval(SpaceCells(h))
      ords == TLCEval([t \in 0..(h.T - 1) |-> Ordinals(space, h.N, t)])
      slabs == TLCEval(IF h.T = 1 THEN {} ELSE UNION {SlabCells(space, h.N, t) : t \in 0..(h.T - 2)})
      tris == TLCEval(UNION {TrisOf(c) : c \in slabs} \cup UNION {UNION {TrisOf(c) : c \in ords[t]} : t \in 0..(h.T - 1)})
      X == TLCEval({f \in tris : Meets(uv, f)})
      hit(S) == {c \in S : TrisOf(c) \cap X # {}}
  IN [h |-> h, fld |-> fld, X |-> X, ords |-> TLCEval([t \in 0..(h.T - 1) |-> hit(ords[t])]), cells |-> TLCEval(hit(slabs)), pts |-> <<>>, sp |-> <<>>, id |-> <<>>]
CStartBad(r) == {}

\* ---------------------------------------------------------------- points
Wt(st, g) == st.fld[g \div st.h.N][g % st.h.N]
Rows(st, f) == [r \in 1..3 |-> LET w == Wt(st, f[r]) IN <<w[1], w[2]>>]
Mn(S) == CHOOSE m \in S : \A x \in S : m <= x
Mx(S) == CHOOSE m \in S : \A x \in S : m >= x
\* recorded number r (times s) of the linear interpolation of the values A at the zero of rows V
Lerp(V, A, r, s) ==
  LET D == Den(V) hi == Mx(Range2(A)) lo == Mn(Range2(A)) IN
  /\ r >= s * lo - 2 * s /\ r <= s * hi + 2 * s
  /\ IF D = 0 THEN r >= s * lo - 2 /\ r <= s * hi + 2
     ELSE Abs(r * D - s * (Num(V, 1) * A[1] + Num(V, 2) * A[2] + Num(V, 3) * A[3])) <= 2 * Abs(D)
XC(h, f, k) == [r \in 1..3 |-> IF k = 4 THEN f[r] \div h.N ELSE SC(h, f[r] % h.N)[k]]
PointsBad(st, e) ==
  LET h == st.h F == {e.p[i].f : i \in DOMAIN e.p} IN
  If(Cardinality(F) # Len(e.p), "duplicate") \cup If(F \ st.X # {}, "spurious") \cup If(st.X \ F # {}, "missing") \cup
  UNION {LET p == e.p[i] IN IF p.f \notin st.X THEN {} ELSE
     LET V == Rows(st, p.f) IN
     If(p.g # p.f, "tag") \cup If(\E k \in 1..4 : ~Lerp(V, XC(h, p.f, k), p.x[k], FS), "position") \cup
     If(p.ts # p.f[1] \div h.N, "timestep") \cup If(p.o # (p.f[1] \div h.N = p.f[3] \div h.N), "ordinal") \cup
     If(h.kind # "uv" /\ ~Lerp(V, [r \in 1..3 |-> Wt(st, p.f[r])[3]], p.s, SS), "residue") \cup
     If(h.kind = "rv" /\ ~Lerp(V, [r \in 1..3 |-> h.d[(p.f[r] \div h.N) + 1][(p.f[r] % h.N) + 1]], p.s2, SS), "value") : i \in DOMAIN e.p}

\* ---------------------------------------------------------------- surfaces
RECURSIVE Comps(_, _)
Comps(V, P) == IF V = {} THEN {} ELSE LET c == Reach({CHOOSE v \in V : TRUE}, P) IN {c} \cup Comps(TLCEval(V \ c), P)
Valid(st, e) == /\ Range2(e.p) \subseteq 0..(Len(st.pts) - 1)
                /\ \A i \in DOMAIN e.s : Range2(e.s[i]) \subseteq 0..(Len(e.p) - 1)
SurfaceBad(st, e) ==
  IF ~Valid(st, e) THEN {"foreign-points"} ELSE
  LET P == TLCEval([i \in DOMAIN e.s |-> {st.pts[e.p[e.s[i][k] + 1] + 1] : k \in DOMAIN e.s[i]}])
      of == TLCEval([c \in st.cells |-> LET C == Corners(c, st.X) IN {P[i] : i \in {j \in DOMAIN P : P[j] \subseteq C}}])
      comps == Comps(0..(Len(e.p) - 1), {{e.s[i][k] : k \in DOMAIN e.s[i]} : i \in DOMAIN e.s})
  IN If(Cardinality(Range2(e.p)) # Len(st.pts) \/ Len(e.p) # Len(st.pts), "surface-points") \cup
     If(\E i \in DOMAIN P : Cardinality(P[i]) # 3, "not-a-triangle") \cup
     If(UNION {of[c] : c \in st.cells} # Range2(P), "piece-outside") \cup
     If(\E c \in st.cells : ~Fills(of[c], c, st.X), "hole") \cup
     If(Len(P) # Cardinality(Range2(P)), "piece-twice") \cup
     If(Len(e.id) # Len(e.p) \/ \E c \in comps : Cardinality({e.id[i + 1] : i \in c}) # 1, "label-split") \cup
     If(Cardinality(Range2(e.id)) < Cardinality(comps), "label-shared")

\* ---------------------------------------------------------------- lines in space: of a slice, or of a single timestep
LinesBad(all, loops, V, at(_), cells, X) ==
  LET used == UNION {Range2(all[i]) : i \in DOMAIN all}
      F[i \in 0..Len(all)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(all[i])
  IN IF used # V \/ F[Len(all)] # Cardinality(V) THEN {"line-points"} ELSE
     LET pairs == TLCEval({{i \in V : at(i) \in Corners(c, X)} : c \in cells})
         Adj(a, b) == {a, b} \in pairs
     IN UNION {LET q == all[i] n == Len(q) IN
          If(\E k \in 1..(n - 1) : ~Adj(q[k], q[k + 1]), "line-jump") \cup
          If(n # 2 /\ loops[i] # (n > 2 /\ Adj(q[1], q[n])), "line-loop") : i \in DOMAIN all} \cup
        If(Len(all) # Cardinality(Comps(V, pairs)), "line-split")
AtT(st, t) == {i \in 0..(Len(st.sp) - 1) : LET f == st.sp[i + 1] IN f[1] \div st.h.N = t /\ f[3] \div st.h.N = t}
Lists(e) == [i \in DOMAIN e.curves |-> e.curves[i].p]
Loops(e) == [i \in DOMAIN e.curves |-> e.curves[i].loop]
SliceBad(st, e) ==
  LinesBad(Lists(e), Loops(e), AtT(st, e.t), LAMBDA i : st.sp[i + 1], IF st.h.T = 1 THEN {} ELSE st.ords[e.t], st.X) \cup
  If(\E i \in DOMAIN e.curves : LET c == e.curves[i] IN \E k \in DOMAIN c.p : c.p[k] + 1 \in DOMAIN st.id /\ (c.ids[k] # st.id[c.p[k] + 1] \/ c.k # st.id[c.p[k] + 1]), "slice-label")
SingleBad(st, e) == LinesBad(Lists(e), Loops(e), 0..(Len(st.pts) - 1), LAMBDA i : st.pts[i + 1], st.ords[0], st.X) \cup
  If(\E i \in DOMAIN e.curves : \E k \in DOMAIN e.curves[i].p : e.curves[i].ids[k] # e.curves[i].k, "line-label")

CBad(st, e) == CASE e.op = "points" -> PointsBad(st, e)
                 [] e.op = "surface" -> SurfaceBad(st, e)
                 [] e.op = "slice" -> SliceBad(st, e)
                 [] e.op = "lines" -> SingleBad(st, e)
                 [] OTHER -> {"unknown-event"}
CApply(st, e) == CASE e.op = "points" -> [st EXCEPT !.pts = TLCEval([i \in DOMAIN e.p |-> e.p[i].f])]
                   [] e.op = "surface" -> [st EXCEPT !.sp = TLCEval([i \in DOMAIN e.p |-> st.pts[e.p[i] + 1]]), !.id = e.id]
                   [] OTHER -> st
====
