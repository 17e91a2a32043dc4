---- MODULE MCDerived ----
(***************************************************************************)
(* Laws the derivations of module Derived have to satisfy, for every       *)
(* polynomial, linear vector field, small image and kernel, triangulation  *)
(* of a small grid: central differences are exact for quadratic functions, *)
(* gradients have no curl and symmetric Jacobians, convolution moves no    *)
(* mass, the gradient on a triangle mesh is exact for affine functions.    *)
(***************************************************************************)
EXTENDS Derived, TLC
CONSTANTS R,        \* coefficients -R..R
          NC,       \* values of the images 0..NC
          Wrong     \* TRUE: negative control (one-sided differences)
VARIABLES k, q
vars == <<k, q>>

Co == -R..R
Init ==
  \/ k = "poly" /\ q \in [1..6 -> Co]
  \/ k = "lin" /\ q \in [1..9 -> -1..1]
  \/ k = "conv" /\ q \in [f : [1..4 -> 0..NC], g : [1..4 -> -1..1]]
  \/ k = "mesh" /\ q \in [d : [1..4 -> BOOLEAN], a : Co, b : Co, l : 1..6]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

G(C(_, _), x) == IF Wrong THEN [a \in 1..3 |-> 2 * (C(0, At(x, a, 1)) - C(0, x))] ELSE Grad3(C, <<5, 5, 5>>, x)
Poly ==
  LET f(c, x) == q[1] * x[1] + q[2] * x[2] * x[2] + q[3] * x[1] * x[2] + q[4] * x[2] * x[3] + q[5] * x[3] * x[3] + q[6] * x[1] * x[1]
      df(c, x) == CASE c = 0 -> q[1] + q[3] * x[2] + 2 * q[6] * x[1]
                    [] c = 1 -> 2 * q[2] * x[2] + q[3] * x[1] + q[4] * x[3]
                    [] c = 2 -> q[4] * x[2] + 2 * q[5] * x[3]
      s == <<5, 5, 5>>
  IN \A x \in {<<1, 1, 1>>, <<2, 3, 1>>, <<3, 2, 3>>} :
       /\ G(f, x) = [a \in 1..3 |-> 2 * df(a - 1, x)]
       /\ Vort3(df, s, x) = Zero(3)
       /\ LET J == Jac3(df, s, 1, x) IN \A i, j \in 0..2 : J[i + 3 * j + 1] = J[j + 3 * i + 1]
       /\ Jv(df, s, x) = JTv(df, s, x)
       /\ Cross3(df, df, s, x) = Zero(3)
Linear ==
  LET m(i, j) == q[3 * i + j + 1]
      v(c, x) == m(c, 0) * x[1] + m(c, 1) * x[2] + m(c, 2) * x[3]
      s == <<3, 3, 3>>
      x == <<1, 1, 1>>
      J == Jac3(v, s, 1, x)
      w == Vec(v, x)
      c == Jv(v, s, x)
      p == CrossV(w, c)
  IN /\ \A i, j \in 0..2 : J[i + 3 * j + 1] = 2 * m(i, j)
     /\ \A i \in 1..3 : c[i] = 2 * (m(i - 1, 0) * w[1] + m(i - 1, 1) * w[2] + m(i - 1, 2) * w[3])
     /\ p[1] * w[1] + p[2] * w[2] + p[3] * w[3] = 0 /\ p[1] * c[1] + p[2] * c[2] + p[3] * c[3] = 0
     /\ Vort3(v, s, x) = <<2 * (m(2, 1) - m(1, 2)), 2 * (m(0, 2) - m(2, 0)), 2 * (m(1, 0) - m(0, 1))>>
Conv2 ==
  LET s == <<2, 2>>
      f(x) == q.f[x[1] + 2 * x[2] + 1]
      g(x) == q.g[x[1] + 2 * x[2] + 1]
      full == ConvSize(s, s, 1)
  IN /\ full = <<3, 3>>
     /\ Sum(Box(full), LAMBDA x : Conv(f, s, g, s, 1, x)) = Sum(Box(s), f) * Sum(Box(s), g)
     /\ \A x \in Box(s) : Conv(f, s, LAMBDA y : 1, <<1, 1>>, 0, x) = f(x)
Mesh ==
  LET P(v) == <<v % 3, v \div 3>>
      Tri(i) == LET a == (i % 2) + 3 * (i \div 2) IN
                IF q.d[i + 1] THEN <<<<a, a + 1, a + 4>>, <<a, a + 4, a + 3>>>> ELSE <<<<a, a + 1, a + 3>>, <<a + 1, a + 4, a + 3>>>>
      T == Tri(0) \o Tri(1) \o Tri(2) \o Tri(3)
      f(v) == q.a * P(v)[1] + q.b * P(v)[2]
      K(v) == Kernel(P, T, v, q.l)
      one(v) == [i \in 1..9 |-> <<i - 1, IF (i - 1) \in K(v) THEN 1 ELSE 0>>]
  IN /\ \A v \in 0..8 : VertGrad(P, T, f, v, 840) = <<840 * q.a, 840 * q.b>>
     /\ \A v \in 0..8 : /\ v \in K(v)
                        /\ \A w \in K(v) : Dist2(P(v), P(w)) < q.l
                        /\ Kernel(P, T, v, 100) = 0..8
     \* smoothing an affine function over a kernel that is symmetric about the centre: twice the slope's moment
     /\ (\A w \in K(4) : (8 - w) \in K(4)) =>
          /\ Smooth(f, one(4)) = Cardinality(K(4)) * f(4)
          /\ SmoothGrad(P, LAMBDA v : 1, 4, one(4)) = <<0, 0>>
Laws == CASE k = "poly" -> Poly [] k = "lin" -> Linear [] k = "conv" -> Conv2 [] k = "mesh" -> Mesh
====
