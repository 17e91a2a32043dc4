---- MODULE PersistTrace ----
(***************************************************************************)
(* Recorded histories of two trackers and the files they write and read    *)
(* (F03).  Numbers are recorded as text (hexadecimal floating point), so   *)
(* equality is exact.  The state holds the contents of both memories and   *)
(* of every file; reading gives what the form of the file keeps.           *)
(***************************************************************************)
EXTENDS TraceCases, Persist

Empty == [cs |-> <<>>, ps |-> <<>>, sl |-> <<>>]
CStart(r) == [ns |-> r.ns, m |-> [s \in 0..1 |-> Empty], d |-> [f \in {} |-> Empty]]
CStartBad(r) == {}

\* points of a tracker: one per tag, the later one replaces the earlier one
Tags(v) == { v[i].g : i \in DOMAIN v }
Put(ps, v) ==
  LET n == Len(v)
      Last(g) == v[CHOOSE i \in 1..n : v[i].g = g /\ \A j \in (i + 1)..n : v[j].g # g]
  IN { ps[i] : i \in { i \in DOMAIN ps : ps[i].g \notin Tags(v) } } \cup { Last(g) : g \in Tags(v) }
AsSet(v) == { v[i] : i \in DOMAIN v }

\* what poly data keep of a curve
Zero == "0x0p+0"
PolyPoint(p, n) == [p EXCEPT !.ts = 0, !.o = FALSE, !.sc = [k \in DOMAIN p.sc |-> IF k <= n THEN p.sc[k] ELSE Zero]]
PolyCurve(c, n) == [key |-> c.key, id |-> c.key, loop |-> c.loop, lo |-> c.lo, hi |-> c.hi, t0 |-> c.t0, t1 |-> c.t1, v0 |-> c.v0, v1 |-> c.v1, ct |-> c.ct,
                    p |-> [i \in DOMAIN c.p |-> PolyPoint(c.p[i], n)]]
Kept(c, n) == [key |-> c.key, id |-> c.id, loop |-> c.loop, lo |-> c.lo, hi |-> c.hi, t0 |-> c.t0, t1 |-> c.t1, v0 |-> c.v0, v1 |-> c.v1, ct |-> c.ct, p |-> c.p]
Whole(S) == SelectSeq(S, LAMBDA c : c.p # <<>>)

CurvesBad(st, f, got) ==
  LET w == st.d[f] IN
  IF w.fmt \in {"json", "bin"}
  THEN (IF Len(got) # Len(w.c.cs) \/ { got[i].key : i \in DOMAIN got } # { w.c.cs[i].key : i \in DOMAIN w.c.cs } THEN {"which-curves"} ELSE IF got # w.c.cs THEN {"curve-contents"} ELSE {})
  ELSE LET e == Whole(w.c.cs) IN
       IF Bag_([i \in DOMAIN got |-> Kept(got[i], st.ns)]) = Bag_([i \in DOMAIN e |-> PolyCurve(e[i], st.ns)]) THEN {} ELSE {"poly-curves"}
Same(a, b, what) == IF a = b THEN {} ELSE {what}
PointsBad(st, e, f) == Same(AsSet(e.ps), Put(st.m[e.s].ps, st.d[f].c.ps), "points") \cup (IF Cardinality(AsSet(e.ps)) # Len(e.ps) THEN {"repeated-points"} ELSE {})

\* text: every point with all its attributes, named scalars only
TextPoint(p, n) == [x |-> p.x, v |-> p.v, t |-> p.t, ty |-> p.ty, g |-> p.g, i |-> p.i, ts |-> p.ts, o |-> p.o, sc |-> SubSeq(p.sc, 1, n)]
TextPoints(v, n) == [i \in DOMAIN v |-> TextPoint(v[i], n)]
TextCurve(c, n) == [key |-> c.key, loop |-> c.loop, ok |-> TRUE, lo |-> c.lo, hi |-> c.hi, mn |-> SubSeq(c.mn, 1, n), mx |-> SubSeq(c.mx, 1, n), pe |-> SubSeq(c.pe, 1, n),
                    t0 |-> c.t0, t1 |-> c.t1, ct |-> c.ct, p |-> TextPoints(c.p, n)]

\* data sets: cells and, per point, the attributes named in a
Attr(q, a) == [k \in a |-> q[k]]
Table(S, n, a) == LET T == Poly(S) IN
  [pt |-> [i \in DOMAIN T.pt |-> Attr([T.pt[i] EXCEPT !.sc = SubSeq(T.pt[i].sc, 1, n)], a)], cell |-> Bag_(T.cell)]
Got(d, a) == [pt |-> [i \in DOMAIN d.pt |-> Attr(d.pt[i], a)], cell |-> Bag_(d.cell)]
Single(v) == [i \in DOMAIN v |-> [key |-> 0, loop |-> FALSE, p |-> <<v[i]>>]]
SliceOf(sl, k) == LET I == { i \in DOMAIN sl : sl[i].k = k } IN IF I = {} THEN <<>> ELSE sl[CHOOSE i \in I : TRUE].p
Window(S, a, b, n) == [i \in DOMAIN S |-> [S[i] EXCEPT !.loop = FALSE, !.p = SelectSeq(S[i].p, LAMBDA q : q.tq >= 4096 * a /\ q.tq <= 4096 * b)]]

ExportBad(st, e) ==
  LET m == st.m[e.s] n == st.ns IN
  CASE e.k = "curves" /\ e.fmt = "txt" -> Same(e.got.n, Len(m.cs), "text-count") \cup Same(e.got.cs, [i \in DOMAIN m.cs |-> TextCurve(m.cs[i], n)], "text-curves")
    [] e.k = "points" /\ e.fmt = "txt" -> Same(e.got, TextPoints(m.ps, n), "text-points")
    [] e.k = "slices" /\ e.fmt = "txt" -> Same(e.got, TextPoints(SliceOf(m.sl, e.n0), n), "text-slice")
    [] e.k = "points" -> LET a == IF e.n1 = 1 THEN {"x", "i", "t", "ty", "sc"} ELSE {"x"} IN Same(Got(e.got, a), Table(Single(m.ps), n, a), "table-points")
    [] e.k = "slices" -> LET a == {"x", "i", "ty", "v", "sc"} IN Same(Got(e.got, a), Table(Single(SliceOf(m.sl, e.n0)), n, a), "table-slice")
    [] e.k = "window" -> LET a == {"x", "t", "i", "ty", "v", "g", "sc"} IN Same(AsSet(Got(e.got, a).pt), AsSet(Table(Window(m.cs, e.n0, e.n1, n), n, a).pt), "table-window")
    [] OTHER -> LET a == {"x", "t", "i", "ty", "v", "g", "sc"} IN Same(Got(e.got, a), Table(m.cs, n, a), "table-curves")

\* surfaces, volumes, lines
Zs(v) == [i \in DOMAIN v |-> v[i] + 0]
SurfPoint(p) == [x |-> p.x, i |-> p.i, t |-> p.t, s |-> p.sc[1], nv |-> p.v]
Pts(P, f(_)) == [i \in DOMAIN P |-> f(P[i])]
SurfBad(e) ==
  LET a == {"x", "i", "t", "s", "nv"} all == e.t \o e.q \o e.pent
      G(d) == [i \in DOMAIN d.pt |-> Attr(d.pt[i], a)]
      Raised(p) == [SurfPoint(p) EXCEPT !.x = <<p.x[1], p.x[2], p.t>>]
      Surf(z) == [p |-> z.p, t |-> z.t, q |-> z.q, pent |-> z.pent]
  IN Same(Surf(e.got), Surf(e), "surface-file") \cup Same(Surf(e.str), Surf(e), "surface-buffer")
     \cup Same(G(e.vtp), Pts(e.p, SurfPoint), "surface-table-points") \cup Same([i \in DOMAIN e.vtp.pt |-> e.vtp.pt[i].ty], [i \in DOMAIN e.p |-> e.p[i].ty], "surface-types")
     \cup Same(Bag_(e.vtp.cell), Bag_(all), "surface-table-cells")
     \cup Same(G(e.st), Pts(e.p, Raised), "surface-spacetime") \cup Same(Bag_(e.st.cell), Bag_(all), "surface-spacetime-cells")
     \cup Same(G(e.vtu), Pts(e.p, SurfPoint), "surface-grid-points") \cup Same(Bag_(e.vtu.cell), Bag_(all), "surface-grid-cells")
     \cup Same([i \in DOMAIN e.vol.pt |-> Attr(e.vol.pt[i], {"x", "i", "t"})], [i \in DOMAIN e.p |-> Attr(e.p[i], {"x", "i", "t"})], "volume-points") \cup Same(Bag_(e.vol.cell), Bag_(e.q), "volume-cells")
     \cup Same(G(e.lin), Pts(e.p, SurfPoint), "line-points") \cup Same(Bag_(e.lin.cell), Bag_(e.edges), "line-cells")

Bare(c) == [c EXCEPT !.key = 0, !.id = 0, !.p = [i \in DOMAIN c.p |-> [c.p[i] EXCEPT !.i = "0"]]]
CBad(st, e) ==
  CASE e.op = "curves" -> {}
    [] e.op = "drop" -> IF \A i \in DOMAIN e.cs : \E j \in DOMAIN st.m[e.s].cs : e.cs[i] = st.m[e.s].cs[j] THEN {} ELSE {"drop"}
    [] e.op = "points" -> Same(AsSet(e.ps), Put(st.m[e.s].ps, e.put), "put")
    [] e.op = "slices" -> {}
    [] e.op \in {"write", "swrite"} -> {}
    [] e.op \in {"read", "sread"} ->
         IF e.k = "curves" THEN CurvesBad(st, e.f, e.cs)
         ELSE IF e.k = "points" THEN PointsBad(st, e, e.f)
         ELSE IF e.k = "both" THEN CurvesBad(st, e.f, e.cs) \cup PointsBad(st, e, e.f)
         ELSE Same(e.sl, st.d[e.f].c.sl, "slices")
    [] e.op = "export" -> ExportBad(st, e)
    [] e.op = "surf" -> SurfBad(e)
    [] e.op = "retrace" -> Same(Bag_([i \in DOMAIN e.b |-> Bare(e.b[i])]), Bag_([i \in DOMAIN e.a |-> Bare(e.a[i])]), "trajectories-of-archived-points")
CApply(st, e) ==
  CASE e.op \in {"curves", "drop"} -> [st EXCEPT !.m[e.s].cs = e.cs]
    [] e.op = "points" -> [st EXCEPT !.m[e.s].ps = e.ps]
    [] e.op = "slices" -> [st EXCEPT !.m[e.s].sl = e.sl]
    [] e.op \in {"write", "swrite"} -> [st EXCEPT !.d = (e.f :> [fmt |-> e.fmt, c |-> st.m[e.s]]) @@ @]
    [] e.op \in {"read", "sread"} ->
         IF e.k = "curves" THEN [st EXCEPT !.m[e.s].cs = e.cs] ELSE IF e.k = "points" THEN [st EXCEPT !.m[e.s].ps = e.ps]
         ELSE IF e.k = "both" THEN [st EXCEPT !.m[e.s].cs = e.cs, !.m[e.s].ps = e.ps] ELSE [st EXCEPT !.m[e.s].sl = e.sl]
    [] OTHER -> st
====
