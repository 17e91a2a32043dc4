---- MODULE NdTrace ----
(***************************************************************************)
(* Recorded operations on arrays (k = "alg": every result joins a list of  *)
(* registers) and recorded reads of fields from files by several processes *)
(* (k = "str": each process reads its box of every timestep).              *)
(***************************************************************************)
EXTENDS TraceCases, NdArray

CStart(r) == [h |-> r.h, R |-> <<>>, t |-> [p \in 0..15 |-> 0]]
CStartBad(r) == {}

Arr(j) == [d |-> j.d, c |-> j.c, v |-> j.v]
G(st, i) == st.R[i + 1]
Vals(st, A) == [i \in 1..Len(A) |-> G(st, A[i])]

\* the results operation e must have in state st; component markers that the operation does not define are -1
U(a) == [a EXCEPT !.c = -1]
Want(st, e) ==
  CASE e.op = "new" -> <<[d |-> e.d, c |-> e.c, v |-> e.v]>>
    [] e.op = "fill" -> <<Map(G(st, e.a[1]), LAMBDA x : e.a[2])>>
    [] e.op = "set" -> LET a == G(st, e.a[1]) IN <<[a EXCEPT !.v[Lin(a.d, e.ix) + 1] = e.a[2]]>>
    [] e.op = "slice" -> <<U(Slice(G(st, e.a[1]), e.st, e.sz))>>
    [] e.op = "sub" -> <<SubBox(G(st, e.a[1]), e.st, e.sz)>>
    [] e.op = "tr" -> LET t == U(Transpose(G(st, e.a[1]))) IN <<t, t>>
    [] e.op = "time" -> <<U(SliceTime(G(st, e.a[1]), e.a[2]))>>
    [] e.op = "times" -> LET a == G(st, e.a[1]) IN [k \in 1..a.d[Len(a.d)] |-> U(SliceTime(a, k - 1))]
    [] e.op = "stack" -> <<U(Stack(Vals(st, e.a)))>>
    [] e.op = "concat" -> <<U(Concat(Vals(st, e.a)))>>
    [] e.op = "add" -> LET s == U(Plus(G(st, e.a[1]), G(st, e.a[2]))) IN <<s, s>>
    [] e.op = "mul" -> LET a == U(Map(G(st, e.a[1]), LAMBDA x : x * e.a[2])) IN <<a, a>>
    [] e.op = "div" -> LET a == U(Map(G(st, e.a[1]), LAMBDA x : x \div e.a[2])) IN <<a, a>>
    [] e.op = "clamp" -> <<Clamp(G(st, e.a[1]), e.a[2], e.a[3])>>
    [] e.op = "mk" -> LET a == G(st, e.a[1]) IN <<[d |-> <<1>> \o a.d, c |-> 1, v |-> a.v]>>
    [] e.op = "setc" -> <<[G(st, e.a[1]) EXCEPT !.c = e.a[2]]>>
    [] e.op = "resh" -> <<U([G(st, e.a[1]) EXCEPT !.d = e.d])>>
    [] e.op \in {"copy", "ser", "bin", "vti"} -> <<G(st, e.a[1])>>
    [] e.op \in {"binseq", "vtiseq"} -> <<U(Stack(Vals(st, e.a)))>>
    [] e.op = "nc" -> <<U(Slice(G(st, e.a[1]), e.st, e.sz))>>
    [] e.op \in {"h5", "ncul"} -> <<U(G(st, e.a[1]))>>
    [] e.op = "amira" -> <<[G(st, e.a[1]) EXCEPT !.c = 1]>>
    [] OTHER -> <<>>

Queries == {"at", "stat", "eq", "lerp"}
Answer(st, e) ==
  LET a == G(st, e.a[1]) IN
  CASE e.op = "at" -> [i \in 1..7 |-> At(a, e.ix)]
    [] e.op = "stat" -> Stats(a)
    [] e.op = "eq" -> LET b == G(st, e.a[2]) same == IF a.d = b.d /\ a.v = b.v THEN 1 ELSE 0 IN <<same, same>>
    [] e.op = "lerp" -> IF LerpInside(a, e.x) THEN <<1, 1>> \o Lerp(a, e.x) \o Lerp(a, e.x) ELSE <<0, 0>>

Same(r, a) ==
  (IF r.d # a.d THEN {"the array has another shape"} ELSE {})
  \cup (IF r.v # a.v THEN {"an element is not the one the operation puts there"} ELSE {})
  \cup (IF a.c # -1 /\ r.c # a.c THEN {"another number of component dimensions"} ELSE {})
  \cup (IF r.n # Len(r.v) THEN {"the number of elements is not that of the stored ones"} ELSE {})

\* streams
Parts(h) == IF h.nc > 1 \/ h.nv > 1 THEN 1 ELSE 0
Field(h, t) == LET F == [i \in 1..h.nv |-> [d |-> h.f[t + 1][i].d, c |-> h.f[t + 1][i].c, v |-> h.f[t + 1][i].v]]
               IN IF h.nv = 1 THEN F[1] ELSE [Concat(F) EXCEPT !.c = 1]
Steps(h) == IF h.limit >= 0 /\ h.limit < Len(h.f) THEN h.limit ELSE Len(h.f)

CBad(st, e) ==
  CASE e.op = "shape" ->
         (IF e.nv # st.h.nv \/ e.nc # st.h.nv * st.h.nc \/ e.nt # Steps(st.h) THEN {"the stream announces another number of variables, components or timesteps"} ELSE {})
         \cup (IF ~st.h.unst /\ e.s # (IF e.nc > 1 THEN <<e.nc>> \o st.h.d ELSE st.h.d) THEN {"the stream announces another shape"} ELSE {})
    [] e.op = "read" ->
         (IF e.t # st.t[e.p] \/ e.t >= Steps(st.h) THEN {"another timestep is delivered"}
          ELSE LET r == e.r IN Same(r, SubBox(Field(st.h, e.t), e.st, e.sz)))
    [] e.op = "end" -> IF e.n # Steps(st.h) THEN {"not every timestep was delivered"} ELSE {}
    [] e.op \in Queries -> IF e.v # Answer(st, e) THEN {"the query " \o e.op \o " gives another answer"} ELSE {}
    [] OTHER ->
         LET W == Want(st, e)
         IN IF Len(e.r) # Len(W) THEN {"another number of results"}
            ELSE UNION {Same(e.r[i], W[i]) : i \in 1..Len(W)}
                 \cup (IF e.op = "amira" /\ ~e.ok THEN {"success or failure of reading is misreported"} ELSE {})

CApply(st, e) ==
  CASE e.op = "shape" \/ e.op = "end" -> st
    [] e.op = "read" -> [st EXCEPT !.t[e.p] = @ + 1]
    [] e.op \in Queries -> st
    [] OTHER -> [st EXCEPT !.R = @ \o [i \in 1..Len(e.r) |-> Arr(e.r[i])]]
====
