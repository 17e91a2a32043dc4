---- MODULE GraphTrace ----
(* Conformance of the graph algorithms (G01): connected components, linear pieces, breadth first order,
   shortest paths, overlap of components.  A case is a graph: nodes r.n, neighbours of each node r.nb (symmetric),
   qualified nodes r.q, weights r.w of the neighbour pairs. *)
EXTENDS TraceCases, Graph
ToSet(s) == { s[i] : i \in DOMAIN s }
Sets(s) == { ToSet(s[i]) : i \in DOMAIN s }
CStart(r) == LET E == { {x[1], x[2]} : x \in ToSet(r.e) } IN
  [V |-> ToSet(r.n), Q |-> ToSet(r.q), E |-> E, w |-> [x \in E |-> (CHOOSE t \in ToSet(r.e) : {t[1], t[2]} = x)[3]]]
CStartBad(r) == {}

Parts(K, s) == (IF Sets(s) # K THEN {"components"} ELSE {}) \cup (IF Len(s) # Cardinality(K) THEN {"component-twice"} ELSE {})
CcBad(s, e) == Parts(Classes(s.Q, s.E), e.c)
LinBad(s, e) ==
  LET U == ToSet(e.u) P == Pieces(U, s.E) IN
  Parts(P, e.c)
  \cup (IF \E i \in DOMAIN e.c : ~IsPath(s.E, e.c[i]) THEN {"curve-jumps"} ELSE {})
  \cup (IF \E i \in DOMAIN e.c : Len(e.c[i]) # 2 /\ e.l[i] # IsLoop(s.E, e.c[i]) THEN {"loop"} ELSE {})
BfsBad(s, e) ==
  LET U == s.Q o == e.o IN
  IF e.s \notin U THEN (IF o # <<>> THEN {"visited-against-criterion"} ELSE {})
  ELSE (IF Range(o) # Reach(U, s.E, e.s) THEN {"bfs-visits"} ELSE {})
   \cup (IF Cardinality(Range(o)) # Len(o) THEN {"bfs-twice"} ELSE {})
   \cup (IF Range(o) \subseteq U /\ \E i \in 1..(Len(o) - 1) : Hops(U, s.E, e.s, o[i]) > Hops(U, s.E, e.s, o[i + 1]) THEN {"bfs-order"} ELSE {})
DijBad(s, e) ==
  LET d == Shortest(s.V, s.E, s.w, e.s)[e.t] p == e.p IN
  IF d = Inf THEN (IF p # <<>> THEN {"path-to-unreachable"} ELSE {})
  ELSE IF p = <<>> THEN {"no-path"} ELSE
       (IF p[1] # e.s \/ p[Len(p)] # e.t THEN {"path-ends"} ELSE {})
  \cup (IF ~IsPath(s.E, p) THEN {"path-jumps"} ELSE IF PathLen(s.w, p) # d THEN {"path-not-shortest"} ELSE {})
OvBad(s, e) == IF Sets(e.p) = {} /\ e.p # <<>> THEN {"overlap"} ELSE
  IF { <<e.p[i][1], e.p[i][2]>> : i \in DOMAIN e.p } #
     { x \in (0..(Len(e.a) - 1)) \X (0..(Len(e.b) - 1)) : ToSet(e.a[x[1] + 1]) \cap ToSet(e.b[x[2] + 1]) # {} } THEN {"overlap"} ELSE {}
CBad(s, e) == CASE e.op = "cc" -> CcBad(s, e) [] e.op = "lin" -> LinBad(s, e) [] e.op = "bfs" -> BfsBad(s, e)
                [] e.op = "dij" -> DijBad(s, e) [] e.op = "ov" -> OvBad(s, e)
CApply(s, e) == s
====
