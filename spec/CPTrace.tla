---- MODULE CPTrace ----
(***************************************************************************)
(* A feature point tracker fed with snapshots: specification of its state  *)
(* machine (snapshot queue, current timestep, points found, trajectories)  *)
(* and of what it must report in every state.  Recorded runs of the real   *)
(* trackers are validated event by event.                                  *)
(***************************************************************************)
EXTENDS TraceCases, SoS, CPMesh, SequencesExt, Degree

Abs(x) == IF x < 0 THEN -x ELSE x
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
SetMax(S) == CHOOSE m \in S : \A x \in S : m >= x
Range2(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range2(s)) = Len(s)
FS == 4096     \* fixed-point scale of recorded reals
NanCode == 99999
InfCode == 99998

\* ------------------------------------------------------------ field values
\* pr = <<timestep, snapshot there, snapshot at the next timestep (0: none)>>
SnapOf(h, pr, g) == h.snaps[IF g \div h.N = pr[1] THEN pr[2] ELSE pr[3]]
Vec(h, pr, f) == [r \in 1..Len(f) |-> SnapOf(h, pr, f[r]).v[(f[r] % h.N) + 1]]
FiniteVals(V) == \A r \in DOMAIN V : \A j \in DOMAIN V[r] : V[r][j] \notin {NanCode, InfCode}
HasZero(h, pr, f) == LET V == Vec(h, pr, f) IN FiniteVals(V) /\ ZeroIn(V)

Processed(h, pr) == \* the simplices examined by one advance
  LET cells == SpaceCells(h)
      ords == IF pr[1] >= h.t0 /\ pr[1] <= h.t1 THEN Ordinals(cells, h.N, pr[1]) ELSE {}
      ints == IF pr[3] # 0 /\ pr[1] >= h.t0 /\ pr[1] + 1 <= h.t1 THEN Intervals(cells, h.N, pr[1]) ELSE {}
  IN {f \in ords \cup ints : HasZero(h, pr, f)}

\* ------------------------------------------------------------ point attributes
Interp(V, X) == \* sum_i Num(V,i)*X[i]
  LET F[i \in 0..Len(V)] == IF i = 0 THEN 0 ELSE F[i - 1] + Num(V, i) * X[i] IN F[Len(V)]
\* recorded fixed-point value r of the interpolation of integer vertex values X
GoodLerp(V, X, r, tol) ==
  LET D == Den(V)
      lo == SetMin(Range2(X)) hi == SetMax(Range2(X))
  IN IF D # 0 THEN Abs(r * D - FS * Interp(V, X)) <= tol * Abs(D)
     ELSE r >= FS * lo - tol /\ r <= FS * hi + tol
XCoord(h, f, k) == [r \in 1..Len(f) |-> h.pc[(f[r] % h.N) + 1][k]]
TCoord(h, f) == [r \in 1..Len(f) |-> f[r] \div h.N]
Scal(h, pr, f) == [r \in 1..Len(f) |-> SnapOf(h, pr, f[r]).s[(f[r] % h.N) + 1]]
JacC(h, pr, f, a) == [r \in 1..Len(f) |-> SnapOf(h, pr, f[r]).j[(f[r] % h.N) + 1][a]]

\* types a 2x2 / 3x3 matrix may be given (several where the exact value sits on a border)
Sym2(a, b, d) == \* [[a,b],[b,d]]
  LET det == a * d - b * b tr == a + d IN
  IF det < 0 THEN {4} ELSE IF det > 0 THEN (IF tr > 0 THEN {2} ELSE {8})
  ELSE IF a = 0 /\ b = 0 /\ d = 0 THEN {1}
  ELSE IF tr > 0 THEN {1, 2, 4} ELSE {1, 8, 4}
Gen2(a, b, c, d) == \* [[a,b],[c,d]]
  LET det == a * d - b * c tr == a + d disc == tr * tr - 4 * det IN
  IF a = 0 /\ b = 0 /\ c = 0 /\ d = 0 THEN {1}
  ELSE IF det < 0 THEN {4}
  ELSE IF det = 0 THEN (IF tr > 0 THEN {1, 2, 4} ELSE IF tr < 0 THEN {1, 8, 4} ELSE {1, 2, 4, 8, 16, 32, 64})
  ELSE IF disc > 0 THEN (IF tr > 0 THEN {2} ELSE {8})
  ELSE IF disc < 0 THEN (IF tr > 0 THEN {32} ELSE IF tr < 0 THEN {16} ELSE {16, 32, 64})
  ELSE (IF tr > 0 THEN {2, 32} ELSE {8, 16})
Sym3(M) ==
  LET m1 == M[1][1]
      m2 == M[1][1] * M[2][2] - M[1][2] * M[1][2]
      dt == Det3(M)
  IN IF dt = 0 THEN {1, 2, 4, 8}
     ELSE IF m1 > 0 /\ m2 > 0 /\ dt > 0 THEN {2}
     ELSE IF m1 < 0 /\ m2 > 0 /\ dt < 0 THEN {8} ELSE {4}

\* gradient of the vector values over one triangle, up to a positive factor
TriJac(h, V, f) ==
  LET X(r, k) == h.pc[(f[r] % h.N) + 1][k]
      dx(r) == X(r, 1) - X(1, 1) dy(r) == X(r, 2) - X(1, 2)
      A == dx(2) * dy(3) - dx(3) * dy(2)
      du(r, c) == V[r][c] - V[1][c]
      gx(c) == SgnI(A) * (du(2, c) * dy(3) - du(3, c) * dy(2))
      gy(c) == SgnI(A) * (du(3, c) * dx(2) - du(2, c) * dx(3))
  IN Gen2(gx(1), gy(1), gx(2), gy(2))

AllTypes == {0, 1, 2, 4, 8, 16, 32, 64}
\* jacobian entries are recorded as j[k + n*i] = d(component i)/d(axis k) up to transposition
\* with degrees asked for: 1 and 2 for an index of 1 and -1 within a timestep, 0 between timesteps
DegreeTypes(h, pr, f) ==
  LET P(g) == IF h.mesh = "reg" THEN <<(g % h.N) % h.dims[1], (g % h.N) \div h.dims[1]>> ELSE h.pc[(g % h.N) + 1]
      Val(g) == SnapOf(h, pr, g).v[(g % h.N) + 1]
      ccw == IF Winding(P, f) > 0 THEN f ELSE <<f[1], f[3], f[2]>>
  IN IF Spans(f, h.N) THEN {0} ELSE IF DegreeOf(Val, ccw) = 1 THEN {1} ELSE {2}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs1(a) == IF a < 0 THEN -a ELSE a
RECURSIVE GcdTo(_, _)
GcdTo(S, i) == IF i = 0 THEN 0 ELSE Gcd(GcdTo(S, i - 1), Abs1(S[i]))
SeqGcd(S) == LET g == GcdTo(S, Len(S)) IN IF g = 0 THEN 1 ELSE g
Types(h, pr, f) ==
  IF h.deg = 1 THEN DegreeTypes(h, pr, f) ELSE
  LET V == Vec(h, pr, f) D == Den(V) n == h.nd
      same == \A r \in 1..Len(f) : \A a \in 1..(n * n) : JacC(h, pr, f, a)[r] = JacC(h, pr, f, a)[1]
      sg == SgnI(D)
      J(a) == IF same THEN JacC(h, pr, f, a)[1] ELSE sg * Interp(V, JacC(h, pr, f, a))
  IN IF h.jac = 0 THEN (IF h.mesh = "tri" THEN (IF h.sca = 1 THEN {0} ELSE IF Spans(f, h.N) THEN AllTypes ELSE TriJac(h, V, f))
                        ELSE IF n = 3 /\ h.sym = 0 THEN {0} ELSE {1})
     ELSE IF n = 3 /\ h.sym = 0 THEN {0}
     ELSE IF D = 0 /\ ~same THEN AllTypes
     ELSE IF n = 2 /\ ~same /\ J(1) = 0 /\ J(4) = 0 /\ ((J(2) = 0 /\ J(3) = 0) \/ (h.sym = 1 /\ J(2) + J(3) = 0)) THEN AllTypes
     ELSE IF n = 2 THEN
            LET S == TLCEval(IF h.sym = 1 THEN <<2 * J(1), J(2) + J(3), J(2) + J(3), 2 * J(4)>> ELSE <<J(1), J(2), J(3), J(4)>>)
                g == SeqGcd(S)
                R == TLCEval([a \in 1..4 |-> S[a] \div g])
            IN \* beyond 32 bits: not judged
               IF \E a \in 1..4 : R[a] > 11000 \/ R[a] < -11000 THEN AllTypes
               ELSE IF h.sym = 1 THEN Sym2(R[1], R[2], R[4]) ELSE Gen2(R[1], R[2], R[3], R[4])
     ELSE LET S == TLCEval(<<2 * J(1), J(2) + J(4), J(3) + J(7), 2 * J(5), J(6) + J(8), 2 * J(9)>>)
              g == SeqGcd(S)
              R == TLCEval([a \in 1..6 |-> S[a] \div g])
          IN \* beyond 32 bits: not judged
             IF \E a \in 1..6 : R[a] > 700 \/ R[a] < -700 THEN AllTypes
             ELSE Sym3(<<<<R[1], R[2], R[3]>>, <<R[2], R[4], R[5]>>, <<R[3], R[5], R[6]>>>>)

\* clauses violated by a recorded point p whose simplex was processed under pr
BadPoint(h, pr, p) ==
  LET V == Vec(h, pr, p.f) IN
     {c \in {"tag", "x", "t", "scalar", "ordinal", "timestep", "type"} :
        \/ c = "tag" /\ p.g # p.f
        \/ c = "x" /\ \E k \in 1..3 : ~GoodLerp(V, XCoord(h, p.f, k), p.x[k], 2)
        \/ c = "t" /\ ~GoodLerp(V, TCoord(h, p.f), p.x[4], 2)
        \/ c = "scalar" /\ h.sca = 1 /\ ~GoodLerp(V, Scal(h, pr, p.f), p.s, 2)
        \/ c = "ordinal" /\ p.o # ~Spans(p.f, h.N)
        \/ c = "timestep" /\ p.ts # pr[1]
        \/ c = "type" /\ p.ty \notin Types(h, pr, p.f)}

\* ------------------------------------------------------------ derived fields
Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x > n - 1 THEN n - 1 ELSE x
\* central difference of component c of the per-vertex rows F, scaled by the resolution
Diff2(h, F, c, s, k) ==
  LET W == h.dims[1] H == h.dims[2] i == s % W j == s \div W
      at(x, y) == F[Clamp(x, W) + W * Clamp(y, H) + 1][c]
  IN IF k = 1 THEN (at(i + 1, j) - at(i - 1, j)) * (W - 1) ELSE (at(i, j + 1) - at(i, j - 1)) * (H - 1)
\* in 3D: twice the central difference, none within b of the border
Inside(h, s, b) ==
  LET x == <<s % h.dims[1], (s \div h.dims[1]) % h.dims[2], s \div (h.dims[1] * h.dims[2])>> IN
  \A k \in 1..3 : x[k] >= b /\ x[k] < h.dims[k] - b
Diff3(h, F, c, s, k, b) ==
  LET m == IF k = 1 THEN 1 ELSE IF k = 2 THEN h.dims[1] ELSE h.dims[1] * h.dims[2]
  IN IF Inside(h, s, b) THEN F[s + m + 1][c] - F[s - m + 1][c] ELSE 0
DiffN(h, F, c, s, k, b) == IF h.nd = 2 THEN Diff2(h, F, c, s, k) ELSE Diff3(h, F, c, s, k, b)
DeriveV(h, p) == IF h.der = 2 THEN [p EXCEPT !.v = TLCEval([s \in 1..h.N |-> [k \in 1..h.nd |-> DiffN(h, [x \in 1..h.N |-> <<p.s[x]>>], 1, s - 1, k, 1)]])] ELSE p
DeriveJ(h, p) == [p EXCEPT !.j = TLCEval([s \in 1..h.N |-> [a \in 1..(h.nd * h.nd) |-> DiffN(h, p.v, 1 + ((a - 1) \div h.nd), s - 1, 1 + ((a - 1) % h.nd), 2)]])]
\* der 0: fields as given; 1: Jacobian derived from the vector field; 2: both derived from the scalar field
Derive(h) == IF h.der = 0 THEN h ELSE [h EXCEPT !.snaps = [i \in 1..Len(h.snaps) |-> DeriveJ(h, DeriveV(h, h.snaps[i]))]]

\* ------------------------------------------------------------ tracker state
\* q queued snapshots, ct current timestep, prs examined timesteps with their snapshots,
\* found simplices, abs those absorbed by online tracing, pts points as last reported,
\* tr trajectories as last reported
Fresh(h) == [h |-> h, q |-> <<>>, ct |-> h.t0, prs |-> {}, found |-> {}, abs |-> {}, pts |-> {}, tr |-> <<>>, fin |-> FALSE]
CStartBad(r) == {}
CStart(r) == Fresh(Derive(r.h))

PrOf(st, f) == CHOOSE pr \in st.prs : pr[1] = f[1] \div st.h.N

\* a point passes the type filter
Pass(h, ty) == h.tf < 0 \/ \E b \in {1, 2, 4, 8, 16, 32, 64} : ty % (2 * b) >= b /\ h.tf % (2 * b) >= b

\* links between points: two facets of one cell (the curve runs through the cell)
CellsAt(h, t) == SlabCells(SpaceCells(h), h.N, t)
Links(h, F, t) ==
  {S \in {Facets(c) \cap F : c \in CellsAt(h, t)} : Cardinality(S) >= 2}
AllLinks(h, F) == UNION {Links(h, F, t) : t \in {f[1] \div h.N : f \in F} \cup {(f[1] \div h.N) - 1 : f \in F}}
Adj(L, f, g) == \E S \in L : f \in S /\ g \in S /\ f # g

\* ------------------------------------------------------------ events
Strip(p) == [f |-> p.f, x |-> p.x, s |-> p.s, ty |-> p.ty, o |-> p.o, ts |-> p.ts]
Faces(c) == [i \in 1..Len(c.p) |-> c.p[i].f]
AllPts(tr) == UNION {Range2(tr[i].p) : i \in DOMAIN tr}
NPts(tr) == LET F[i \in 0..Len(tr)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(tr[i].p) IN F[Len(tr)]

\* points reported now: P is what the run holds, E the simplices expected
BadPoints(st, P, E) ==
  LET h == st.h
      R == {P[i].f : i \in DOMAIN P}
      ok1 == R \subseteq E
  IN (IF Len(P) # Cardinality(R) THEN {"duplicate"} ELSE {}) \cup
     (IF ~ok1 THEN {"spurious"} ELSE {}) \cup
     (IF \E f \in E \ R : h.tf < 0 \/ \A ty \in Types(h, PrOf(st, f), f) : Pass(h, ty) THEN {"missing"} ELSE {}) \cup
     (IF \E i \in DOMAIN P : ~Pass(h, P[i].ty) THEN {"filtered-type"} ELSE {}) \cup
     (IF ok1 THEN UNION {BadPoint(h, PrOf(st, P[i].f), P[i]) : i \in DOMAIN P} ELSE {})

BadStats(c) ==
  IF Len(c.p) = 0 THEN {} ELSE
  LET I == 1..Len(c.p) tys == {c.p[i].ty : i \in I}
      ext(lo, hi, S) == lo = SetMin(S) /\ hi = SetMax(S) IN
  (IF ~ext(c.tn, c.tx, {c.p[i].x[4] : i \in I}) THEN {"stat-time"} ELSE {}) \cup
  (IF \E k \in 1..3 : ~ext(c.bn[k], c.bx[k], {c.p[i].x[k] : i \in I}) THEN {"stat-box"} ELSE {}) \cup
  (IF ~ext(c.sn, c.sx, {c.p[i].s : i \in I}) \/ Abs(c.pe - (c.sx - c.sn)) > 1 THEN {"stat-scalar"} ELSE {}) \cup
  (IF c.ct # (IF Cardinality(tys) = 1 THEN CHOOSE y \in tys : TRUE ELSE 0) THEN {"stat-type"} ELSE {})

BadIds(tr) ==
  (IF \E i, j \in DOMAIN tr : i # j /\ tr[i].k = tr[j].k THEN {"number-not-unique"} ELSE {}) \cup
  (IF \E i \in DOMAIN tr : tr[i].id # tr[i].k \/ \E j \in DOMAIN tr[i].p : tr[i].p[j].id # tr[i].k THEN {"number-on-points"} ELSE {})

\* cells whose facets have all been examined and hold finite values only
Done(st, t) == {pr \in st.prs : pr[1] = t /\ pr[3] # 0} # {} /\ {pr \in st.prs : pr[1] = t + 1} # {}
FullCells(st, t) ==
  LET pr == CHOOSE x \in st.prs : x[1] = t IN
  IF ~Done(st, t) THEN {} ELSE {c \in CellsAt(st.h, t) : FiniteVals(Vec(st.h, pr, c))}
InteriorEnd(st, F) ==
  \E t \in {pr[1] : pr \in st.prs} : \E c \in FullCells(st, t) : Cardinality(Facets(c) \cap F) = 1

\* batch tracing: trajectories are the curves of the links
BadBatch(st, tr) ==
  LET F == {p.f : p \in st.pts}
      L == AllLinks(st.h, F)
      own == [f \in F |-> {i \in DOMAIN tr : f \in Range2(Faces(tr[i]))}]
      crowd == \E S \in L : Cardinality(S) > 2
  IN IF crowd THEN {"not-a-curve"} ELSE
     (IF \E i \in DOMAIN tr : Len(tr[i].p) = 0 THEN {"empty-curve"} ELSE {}) \cup
     (IF {Strip(p) : p \in AllPts(tr)} # st.pts \/ NPts(tr) # Cardinality(st.pts) THEN {"points-conserved"}
      ELSE
       (IF \E i \in DOMAIN tr : \E k \in 1..(Len(tr[i].p) - 1) : ~Adj(L, tr[i].p[k].f, tr[i].p[k + 1].f) THEN {"not-adjacent"} ELSE {}) \cup
       (IF \E S \in L : LET f == CHOOSE x \in S : TRUE g == CHOOSE x \in S : x # f IN own[f] # own[g] THEN {"component-split"} ELSE {}) \cup
       (IF \E i \in DOMAIN tr : tr[i].loop # (Len(tr[i].p) >= 2 /\ Adj(L, tr[i].p[1].f, tr[i].p[Len(tr[i].p)].f)) THEN {"loop"} ELSE {}) \cup
       (IF st.h.tf < 0 /\ InteriorEnd(st, F) THEN {"interior-end"} ELSE {})) \cup
     BadIds(tr) \cup UNION {BadStats(tr[i]) : i \in DOMAIN tr}

\* online tracing: the curves hold exactly the absorbed points; earlier curves only grow at their ends
Key(p) == [f |-> p.f, x |-> p.x, s |-> p.s, ty |-> p.ty, o |-> p.o, ts |-> p.ts]
IsInfix(a, b) == \E k \in 0..(Len(b) - Len(a)) : \A i \in 1..Len(a) : Key(b[k + i]) = Key(a[i])
BadOnline(st, tr) ==
  LET h == st.h
      old == st.tr
      A == st.abs
      P == AllPts(tr)
      L == AllLinks(h, A)
      byk(s, k) == CHOOSE i \in DOMAIN s : s[i].k = k
      oldk == {old[i].k : i \in DOMAIN old}
      kept == {i \in DOMAIN tr : tr[i].k \in oldk}
      new == DOMAIN tr \ kept
      ends(c) == {c.p[1].f, c.p[Len(c.p)].f}
  IN IF {p.f : p \in P} # A \/ NPts(tr) # Cardinality(A) THEN {"points-absorbed"} ELSE
     UNION {BadPoint(h, PrOf(st, p.f), p) : p \in P} \cup
     (IF \E i \in DOMAIN tr : \E k \in 1..(Len(tr[i].p) - 1) : ~Adj(L, tr[i].p[k].f, tr[i].p[k + 1].f) THEN {"not-adjacent"} ELSE {}) \cup
     BadIds(tr) \cup
     (IF \E i \in DOMAIN old : ~\E j \in DOMAIN tr : tr[j].k = old[i].k THEN {"curve-lost"}
      ELSE (IF \E i \in DOMAIN old : ~IsInfix(old[i].p, tr[byk(tr, old[i].k)].p) THEN {"curve-cut"} ELSE {}) \cup
           (IF \E i \in DOMAIN old : old[i].cpl /\ (~tr[byk(tr, old[i].k)].cpl \/ Len(tr[byk(tr, old[i].k)].p) # Len(old[i].p)) THEN {"complete-grew"} ELSE {}) \cup
           \* a new curve never starts next to the end of a curve that was still growing
           (IF \E i \in DOMAIN old : ~old[i].cpl /\ \E f \in ends(tr[byk(tr, old[i].k)]) : \E j \in new : \E g \in Range2(Faces(tr[j])) : Adj(L, f, g) THEN {"not-extended"} ELSE {}) \cup
           (IF \E i, j \in new : i < j /\ \E f \in Range2(Faces(tr[i])), g \in Range2(Faces(tr[j])) : Adj(L, f, g) THEN {"component-split"} ELSE {}))

\* ------------------------------------------------------------ slices, selections
BadSlice(st, sl, pts) ==
  (IF \E i, j \in DOMAIN sl : i # j /\ sl[i].t = sl[j].t THEN {"slice-repeated"} ELSE {}) \cup
  (IF \E i \in DOMAIN sl : LET P == sl[i].p IN
        ~(NoDup(P) /\ {<<Strip(p), p.id>> : p \in Range2(P)} = {<<Strip(p), p.id>> : p \in {x \in pts : x.o /\ x.ts = sl[i].t}})
    THEN {"slice-points"} ELSE {}) \cup
  (IF \E p \in pts : p.o /\ ~\E i \in DOMAIN sl : sl[i].t = p.ts THEN {"slice-missing"} ELSE {})
\* fl, ce: floor and ceiling of the point's exact time
Within(p, a, b) == p.fl >= a /\ p.ce <= b
\* restriction of a curve to a window: its points inside, in curve order
Window(c, a, b) == SelectSeq(c.p, LAMBDA p : Within(p, a, b))

Bad1(st, e) ==
  LET h == st.h IN
  CASE e.op \in {"P", "V", "S", "K", "U", "F"} -> {}
    [] e.op = "A" -> (IF e.ct # st.ct + 1 THEN {"current-timestep"} ELSE {}) \cup
                     (IF e.ret # (Len(st.q) > 1) THEN {"advance-result"} ELSE {})
    [] e.op = "R" -> (IF e.ct # 0 THEN {"current-timestep"} ELSE {})
    [] e.op = "C" -> BadPoints(st, e.p, st.found \ st.abs) \cup
                     (IF h.stream = 0 /\ ~(st.pts \subseteq {Strip(p) : p \in Range2(e.p)}) THEN {"changed"} ELSE {})
    [] e.op = "T" -> IF h.stream = 1 THEN BadOnline(st, e.tr) \cup (IF st.fin THEN UNION {BadStats(e.tr[i]) : i \in DOMAIN e.tr} ELSE {})
                     ELSE IF ~st.fin THEN (IF Len(e.tr) = 0 THEN {} ELSE {"early-trajectories"})
                     ELSE BadBatch(st, e.tr)
    [] e.op = "L" -> BadSlice(st, e.sl, AllPts(st.tr))
    [] e.op = "Y" -> BadSlice(st, e.sl, {p \in AllPts(st.tr) : \E b \in {1, 2, 4, 8, 16, 32, 64} : p.ty % (2 * b) >= b /\ (e.n % (2 * b)) >= b})
    [] e.op = "X" -> (IF {<<c.k, c.p, c.loop, c.cpl>> : c \in Range2(e.tr)} #
                        {<<c.k, c.p, c.loop, c.cpl>> : c \in {x \in Range2(st.tr) : Len(x.p) >= e.n}} \/ Len(e.tr) # Cardinality({i \in DOMAIN st.tr : Len(st.tr[i].p) >= e.n})
                      THEN {"selection"} ELSE {})
    [] e.op = "I" -> LET want == {w \in {[k |-> c.k, p |-> Window(c, e.a, e.b)] : c \in Range2(st.tr)} : Len(w.p) > 0}
                         got == {[k |-> c.k, p |-> c.p] : c \in Range2(e.tr)} IN
                     (IF got # want \/ Len(e.tr) # Cardinality(want) THEN {"window"} ELSE {}) \cup
                     UNION {BadStats(e.tr[i]) : i \in DOMAIN e.tr} \cup
                     (IF \E i \in DOMAIN e.tr : e.tr[i].id # e.tr[i].k THEN {"number-on-points"} ELSE {})
    [] OTHER -> {"unknown-event"}

\* h.only: the clauses this check decides (empty: all)
CBad(st, e) == LET b == Bad1(st, e) IN IF Len(st.h.only) = 0 THEN b ELSE b \cap (Range2(st.h.only) \cup {"unknown-event"})

\* one advance (or update without advancing): examine the current slab
Update(st) ==
  LET pr == <<st.ct, st.q[1], IF Len(st.q) > 1 THEN st.q[2] ELSE 0>>
      all == st.found \cup Processed(st.h, pr)
      absorb == st.h.stream = 1 /\ (Len(st.q) > 1 \/ st.h.mesh = "tri")  \* online tracing absorbs the points found so far
  IN [st EXCEPT !.prs = {x \in @ : x[1] # pr[1]} \cup {pr}, !.found = all, !.abs = IF absorb THEN all ELSE @]

CApply(st, e) ==
  CASE e.op \in {"P", "V", "S"} -> [st EXCEPT !.q = Append(@, e.k + 1)]
    [] e.op = "K" -> [st EXCEPT !.ct = e.ct]
    [] e.op = "U" -> Update(st)
    [] e.op = "A" -> LET u == Update(st) IN [u EXCEPT !.q = Tail(@), !.ct = @ + 1]
    [] e.op = "R" -> [Fresh(st.h) EXCEPT !.ct = 0]
    [] e.op = "F" -> [st EXCEPT !.fin = TRUE]
    [] e.op = "C" -> [st EXCEPT !.pts = {Strip(p) : p \in Range2(e.p)}]
    [] e.op \in {"T", "X"} -> [st EXCEPT !.tr = e.tr]
    [] OTHER -> st
====
