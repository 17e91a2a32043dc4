---- MODULE MeshTrace ----
(* Conformance of the regular mesh (M01, M02): see Freudenthal. *)
EXTENDS TraceCases, Freudenthal

ToSet(s) == { s[i] : i \in DOMAIN s }
VSet(v) == ToSet(v)
Hi(st_, sz) == [i \in DOMAIN st_ |-> st_[i] + sz[i] - 1]
InScope(S, scope) == CASE scope = 0 -> TRUE [] scope = 1 -> Ordinal(S) [] scope = 2 -> ~Ordinal(S)

CStart(r) == IF r.kind = "lattice" THEN [k |-> r.kind, lo |-> r.st, hi |-> Hi(r.st, r.sz), ids |-> {}]
             ELSE [k |-> r.kind, lo |-> r.lb, hi |-> r.ub, ids |-> {}]
CStartBad(r) == {}

VisitBad(s, e) ==
  LET inside == { i \in DOMAIN e.els : SInBox(VSet(e.els[i].v), s.lo, s.hi) }
      got == { VSet(e.els[i].v) : i \in inside }
      want == { S \in SimplicesAt(e.d, s.lo, s.hi, e.st, Hi(e.st, e.sz)) : InScope(S, e.scope) }
  IN  (IF got \ want # {} THEN {"visits-a-simplex-outside-the-box-or-scope"} ELSE {})
      \cup (IF want \ got # {} THEN {"misses-a-simplex"} ELSE {})
      \cup (IF Cardinality(got) # Cardinality(inside) THEN {"visits-a-simplex-twice"} ELSE {})
      \cup (IF \E i \in DOMAIN e.els : e.els[i].ok # (i \in inside) THEN {"valid-disagrees-with-bounds"} ELSE {})
      \cup (IF \E i \in inside : e.els[i].or # Ordinal(VSet(e.els[i].v)) THEN {"ordinal-flag"} ELSE {})
      \cup (IF \E i \in DOMAIN e.els : Len(e.els[i].v) # e.d + 1 \/ ~IsSimplex(VSet(e.els[i].v)) \/ Cardinality(VSet(e.els[i].v)) # e.d + 1
            THEN {"not-a-simplex"} ELSE {})

RelBad(s, e) ==
  LET sides(x) == { VSet(x.s[i]) : i \in DOMAIN x.s }
      cof(x) == { VSet(x.c[i]) : i \in DOMAIN x.c }
  IN  (IF \E i \in DOMAIN e.els : sides(e.els[i]) # Sides(VSet(e.els[i].v)) \/ Len(e.els[i].s) # Cardinality(sides(e.els[i])) THEN {"sides"} ELSE {})
      \cup (IF \E i \in DOMAIN e.els : cof(e.els[i]) # (IF e.d = Len(s.lo) THEN {} ELSE Cofaces(VSet(e.els[i].v))) \/ Len(e.els[i].c) # Cardinality(cof(e.els[i])) THEN {"side-of"} ELSE {})

\* identifiers: pairs <<simplex, id>> of the whole history must be a bijection
Pairs(e) == { <<VSet(e.els[i].v), e.els[i].i>> : i \in { j \in DOMAIN e.els : e.els[j].ok } }
IdsBad(s, e) ==
  LET all == s.ids \cup { <<e.d, p[1], p[2]>> : p \in Pairs(e) }
      mine == { p \in all : p[1] = e.d }
      wi == { e.els[i].w : i \in DOMAIN e.els }
      ok == { j \in DOMAIN e.els : e.els[j].ok }
  IN  (IF Cardinality({ p[2] : p \in mine }) # Cardinality(mine) THEN {"simplex-has-two-ids"} ELSE {})
      \cup (IF Cardinality({ p[3] : p \in mine }) # Cardinality(mine) THEN {"two-simplices-share-an-id"} ELSE {})
      \cup (IF \E i \in ok : VSet(e.els[i].b) # VSet(e.els[i].v) \/ ~e.els[i].eq THEN {"id-does-not-decode-to-its-simplex"} ELSE {})
      \cup (IF Cardinality(wi) # Len(e.els) THEN {"two-elements-share-a-work-index"} ELSE {})
      \cup (IF \E i \in DOMAIN e.els : VSet(e.els[i].wb) # VSet(e.els[i].v) THEN {"work-index-does-not-decode"} ELSE {})

PtsBad(s, e) ==
  LET ids == { e.p[i].i : i \in DOMAIN e.p } cs == { e.p[i].c : i \in DOMAIN e.p }
  IN  (IF Cardinality(ids) # Cardinality(cs) THEN {"lattice-ids-collide"} ELSE {})
      \cup (IF \E i \in DOMAIN e.p : e.p[i].b # e.p[i].c THEN {"lattice-id-does-not-decode"} ELSE {})
      \cup (IF e.all = 1 /\ (ids # { ToString(k) : k \in 0..(Len(e.p) - 1) } \/ e.n # ToString(Len(e.p))) THEN {"lattice-ids-not-compact"} ELSE {})
      \cup (IF e.lo # s.lo \/ e.hi # s.hi THEN {"lattice-bounds"} ELSE {})

CBad(s, e) ==
  CASE e.op = "visit" -> VisitBad(s, e)
    [] e.op = "rel" -> RelBad(s, e)
    [] e.op = "ids" -> IdsBad(s, e)
    [] e.op = "pts" -> PtsBad(s, e)
    [] e.op = "order" -> IF e.n = e.s /\ e.n = e.h THEN {} ELSE {"containers-lose-elements"}
CApply(s, e) == IF e.op = "ids" THEN [s EXCEPT !.ids = @ \cup { <<e.d, p[1], p[2]>> : p \in Pairs(e) }] ELSE s
====
