---- MODULE DerivedTrace ----
(***************************************************************************)
(* Recorded derivations.  An event names the operation and holds its input *)
(* and its output as flat sequences in the order of storage.               *)
(***************************************************************************)
EXTENDS TraceCases, Derived

CStart(r) == r.h
CStartBad(r) == {}
CApply(st, e) == st

RECURSIVE Lin(_, _)
Lin(s, x) == IF s = <<>> THEN 0 ELSE x[1] + s[1] * Lin(Tail(s), Tail(x))
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE s[1] * Size(Tail(s))
RECURSIVE Pos(_, _)
Pos(s, i) == IF s = <<>> THEN <<>> ELSE <<i % s[1]>> \o Pos(Tail(s), i \div s[1])

\* F(x): the components at x; the output must have the sizes pre \o s
Match(e, pre, s, F(_)) ==
  LET n == Size(pre)
  IN (IF e.os # pre \o s THEN {"the derived field has another shape"} ELSE {})
     \cup (IF ~ e.ex THEN {"a derived value is not a multiple of its unit"} ELSE {})
     \cup (IF Len(e.out) # n * Size(s) THEN {"the derived field has another size"}
           ELSE IF \E i \in 0..Size(s) - 1 : LET w == TLCEval(F(Pos(s, i))) IN \E c \in 1..n : e.out[i * n + c] # w[c]
           THEN {"a derived value is not that of its definition"} ELSE {})

GridBad(e) ==
  LET s == e.s
      nc == e.nc
      C(c, x) == e.in[c + nc * Lin(s, x) + 1]
      E(c, x) == e.in2[c + nc * Lin(s, x) + 1]
  IN CASE e.op = "grad2"  -> Match(e, <<2>>, s, LAMBDA x : Grad2(C, s, e.W, x))
       [] e.op = "jac2"   -> Match(e, <<2, 2>>, s, LAMBDA x : Jac2(C, s, e.W, x))
       [] e.op = "jac2s"  -> Match(e, <<2, 2>>, s, LAMBDA x : Jac2Sym(C, s, e.W, x))
       [] e.op = "grad2t" -> Match(e, <<2>>, s, LAMBDA x : Grad2t(C, s, x))
       [] e.op = "jac2t"  -> Match(e, <<2, 2>>, s, LAMBDA x : Jac2t(C, s, x))
       [] e.op \in {"grad3", "grad3t"} -> Match(e, <<3>>, s, LAMBDA x : Grad3(C, s, x))
       [] e.op = "jac3"   -> Match(e, <<3, 3>>, s, LAMBDA x : Jac3(C, s, e.b, x))
       [] e.op = "jac3t"  -> Match(e, <<3, 3>>, s, LAMBDA x : Jac3(C, s, 2, x))
       [] e.op = "vort"   -> Match(e, <<3>>, s, LAMBDA x : Vort3(C, s, x))
       [] e.op = "cross"  -> Match(e, <<3>>, s, LAMBDA x : Cross3(C, E, s, x))
       [] e.op = "jv"     -> Match(e, <<3>>, s, LAMBDA x : Jv(C, s, x))
       [] e.op = "jtv"    -> Match(e, <<3>>, s, LAMBDA x : JTv(C, s, x))
       [] e.op = "conv"   -> Match(e, <<>>, ConvSize(s, e.ks, e.p), LAMBDA x : <<Conv(LAMBDA y : C(0, y), s, LAMBDA k : e.k[Lin(e.ks, k) + 1], e.ks, e.p, x)>>)
       \* a kernel so wide that all its values agree: every component by itself
       [] e.op = "flat"   -> Match(e, e.pre, ConvSize(s, e.ks, e.p), LAMBDA x : [c \in 1..nc |-> Conv(LAMBDA y : C(c - 1, y), s, LAMBDA k : 1, e.ks, e.p, x)])

MeshBad(st, e) ==
  LET P(v) == st.p[v + 1]
      T == st.t
      nv == Len(st.p)
      f(v) == e.in[v + 1]
  IN CASE e.op = "mgrad" -> Match(e, <<2>>, <<nv>>, LAMBDA x : VertGrad(P, T, f, x[1], 60))
       [] e.op = "mjac"  -> Match(e, <<2, e.nc>>, <<nv>>, LAMBDA x : [i \in 1..(2 * e.nc) |->
                              VertGrad(P, T, LAMBDA v : e.in[v * e.nc + ((i - 1) \div 2) + 1], x[1], 60)[((i - 1) % 2) + 1]])
       [] e.op = "mhess" -> \* both at once: the gradient, and the gradient of the gradient
            LET g == [v \in 0..nv - 1 |-> VertGrad(P, T, f, v, 60)]
            IN Match(e, <<2, 2>>, <<nv>>, LAMBDA x : [i \in 1..4 |->
                   VertGrad(P, T, LAMBDA v : g[v][((i - 1) \div 2) + 1], x[1], 60)[((i - 1) % 2) + 1]])
       [] e.op = "smooth" -> Match(e, <<>>, <<nv>>, LAMBDA x : <<Smooth(f, e.k[x[1] + 1])>>)
       [] e.op = "smoothg" -> Match(e, <<2>>, <<nv>>, LAMBDA x : SmoothGrad(P, f, x[1], e.k[x[1] + 1]))
       [] e.op = "smoothj" -> Match(e, <<2, 2>>, <<nv>>, LAMBDA x : SmoothJac(P, f, x[1], e.k[x[1] + 1], e.q))
       [] e.op = "kernel" -> \* k: per vertex the members and the ranks of their weights (1 = largest)
            UNION { LET K == e.k[v + 1]
                        M == { K[i][1] : i \in DOMAIN K }
                    IN (IF M # Kernel(P, T, v, e.l2) \/ Cardinality(M) # Len(K) THEN {"the kernel has other members"} ELSE {})
                       \cup (IF \E i, j \in DOMAIN K : (Dist2(P(v), P(K[i][1])) < Dist2(P(v), P(K[j][1]))) # (K[i][2] < K[j][2])
                             THEN {"a weight does not fall with the distance"} ELSE {})
                  : v \in 0..nv - 1 }

SimplexBad(e) ==
  IF ~ e.ex THEN {"a derivative is not a multiple of its unit"}
  ELSE IF \A r \in DOMAIN e.g : IsGrad(e.X, e.f[r], e.g[r]) THEN {} ELSE {"not the gradient of the linear function"}

CBad(st, e) ==
  IF e.op = "simplex" THEN SimplexBad(e)
  ELSE IF st.mesh THEN MeshBad(st, e) ELSE GridBad(e)
====
