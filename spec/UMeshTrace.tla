---- MODULE UMeshTrace ----
(* Conformance of the triangle/tetrahedral meshes and their extrusion (M03): see UMesh. *)
EXTENDS TraceCases, UMesh

ToSet(s) == { s[i] : i \in DOMAIN s }
Sets(s) == { ToSet(s[i]) : i \in DOMAIN s }
CStart(r) == [D |-> r.D, N |-> r.nv, C |-> Sets(r.cells), L |-> r.cells]
CStartBad(r) == {}

\* simplices of the base mesh, vertices included
BaseF(s, d) == IF d = 0 THEN { {v} : v \in 0..(s.N - 1) } ELSE Faces(s.C, d)
Els(e) == { ToSet(e.els[i].v) : i \in DOMAIN e.els }
BaseBad(s, e) ==
  LET F == BaseF(s, e.d) G == IF e.d < s.D THEN Faces(s.C, e.d + 1) ELSE {} IN
  (IF Els(e) # F THEN {"base-simplices"} ELSE {})
  \cup (IF Cardinality(Els(e)) # Len(e.els) THEN {"base-simplex-twice"} ELSE {})
  \cup (IF \E i \in DOMAIN e.els : ~e.els[i].f THEN {"base-find"} ELSE {})
  \cup (IF \E i \in DOMAIN e.els : Sets(e.els[i].c) # { u \in G : ToSet(e.els[i].v) \subseteq u } THEN {"base-side-of"} ELSE {})
  \cup (IF s.D = 2 /\ e.d > 0 /\ \E i \in DOMAIN e.els : Sets(e.els[i].s) # Facets(ToSet(e.els[i].v)) THEN {"base-sides"} ELSE {})
VertBad(s, e) ==
  LET E == Faces(s.C, 1) IN
  (IF \E i \in DOMAIN e.els : ToSet(e.els[i].n) # UNION { u \ {i - 1} : u \in { x \in E : (i - 1) \in x } } THEN {"vertex-neighbours"} ELSE {})
  \cup (IF \E i \in DOMAIN e.els : Sets(e.els[i].t) # { c \in s.C : (i - 1) \in c } THEN {"vertex-triangles"} ELSE {})
Even(q) == (q[1] < q[2] /\ q[2] < q[3]) \/ (q[2] < q[3] /\ q[3] < q[1]) \/ (q[3] < q[1] /\ q[1] < q[2])
ChiBad(s, e) ==
  (IF \E i \in DOMAIN e.x : e.x[i] # IF Even(s.L[i]) THEN 1 ELSE -1 THEN {"orientation"} ELSE {})
  \cup (IF e.e # e.x \/ e.up # 0 THEN {"orientation-of-the-extrusion"} ELSE {})
DualBad(s, e) ==
  IF \E i \in DOMAIN e.els : Sets(e.els[i][2]) # { c \in s.C : Cardinality(c \cap ToSet(e.els[i][1])) = 2 } THEN {"triangle-neighbours"} ELSE {}

SlabV(s, d, t) == IF d = 0 THEN Slab({ {v} : v \in 0..(s.N - 1) }, s.N, 0, t) ELSE IF d = 1 THEN
   Slab(s.C, s.N, 1, t) \cup { { v + s.N * t, v + s.N * (t + 1) } : v \in 0..(s.N - 1) } ELSE Slab(s.C, s.N, d, t)
InPlaneV(s, d, t) == IF d = 0 THEN SlabV(s, 0, t) ELSE InPlane(s.C, s.N, d, t)
SlabBad(s, e) ==
  LET W == SlabV(s, e.d, e.t) P == InPlaneV(s, e.d, e.t) IN
  (IF Els(e) # W THEN {"slab-simplices"} ELSE {})
  \cup (IF Cardinality(Els(e)) # Len(e.els) THEN {"simplex-has-two-ids"} ELSE {})
  \cup (IF \E i \in DOMAIN e.els : Cardinality(ToSet(e.els[i].v)) # e.d + 1 THEN {"degenerate-simplex"} ELSE {})
  \cup (IF \E i \in DOMAIN e.els : ~e.els[i].g THEN {"id-changed"} ELSE {})
  \cup (IF \E i \in DOMAIN e.els : ~e.els[i].f THEN {"find"} ELSE {})
  \cup (IF e.n # Cardinality(W) THEN {"count"} ELSE {})
  \cup (IF e.d <= s.D /\ \E i \in DOMAIN e.els : e.els[i].o # (ToSet(e.els[i].v) \in P) THEN {"ordinal-flag"} ELSE {})
  \cup (IF e.d <= s.D /\ (e.no # Cardinality(P) \/ e.ni # Cardinality(W \ P)) THEN {"ordinal-count"} ELSE {})
ForBad(s, e) ==
  LET P == InPlaneV(s, e.d, e.t) W == IF e.sc = 1 THEN P ELSE SlabV(s, e.d, e.t) \ P IN
  (IF Sets(e.els) # W THEN {"iterated-simplices"} ELSE {})
  \cup (IF Cardinality(Sets(e.els)) # Len(e.els) THEN {"iterated-twice"} ELSE {})
RelBad(s, e) ==
  LET G == SlabV(s, e.d + 1, e.t - 1) \cup SlabV(s, e.d + 1, e.t) IN
  (IF e.sd /\ \E i \in DOMAIN e.els : (Sets(e.els[i].s) # Facets(ToSet(e.els[i].v)) \/ Len(e.els[i].s) # e.d + 1) THEN {"sides"} ELSE {})
  \cup (IF e.so /\ \E i \in DOMAIN e.els : Sets(e.els[i].c) # { u \in G : ToSet(e.els[i].v) \subseteq u } THEN {"side-of"} ELSE {})
CBad(s, e) ==
  CASE e.op = "base" -> BaseBad(s, e) [] e.op = "vert" -> VertBad(s, e) [] e.op = "chi" -> ChiBad(s, e)
    [] e.op = "dual" -> DualBad(s, e) [] e.op = "slab" -> SlabBad(s, e) [] e.op = "for" -> ForBad(s, e)
    [] e.op = "rel" -> RelBad(s, e)
CApply(s, e) == s
====
