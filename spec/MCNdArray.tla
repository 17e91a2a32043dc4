---- MODULE MCNdArray ----
(***************************************************************************)
(* The array operations against the same operations on functions from      *)
(* index tuples to values, which know nothing of storage order.            *)
(* After every sequence of operations the stored array is that function,   *)
(* and the algebraic laws hold: transposing twice, stacking the slices,    *)
(* concatenating the components and cutting a box from a box.              *)
(***************************************************************************)
EXTENDS NdArray
CONSTANTS MaxNd, MaxSize, MaxLen, MaxOps, Wrong

VARIABLES a, f, n
vars == <<a, f, n>>

Indices(d) == {x \in [1..Len(d) -> 0..(MaxSize + 1)] : Inside(d, x)}
Shapes == UNION {[1..k -> 1..MaxSize] : k \in 1..MaxNd}
Fresh(d) == [d |-> d, c |-> 0, v |-> [k \in 1..Prod(d) |-> k]]
\* numbered in the order of the reversed tuples, without positions
Below(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in (i + 1)..Len(x) : x[j] = y[j]

Init == /\ n = 0
        /\ \E d \in Shapes : a = Fresh(d) /\ f = [x \in Indices(d) |-> 1 + Cardinality({y \in Indices(d) : Below(y, x)})]

Boxes(d) == {b \in Indices(d) \X Indices([i \in 1..Len(d) |-> d[i] + 1]) : \A i \in 1..Len(d) : b[2][i] > 0 /\ b[1][i] + b[2][i] <= d[i]}

Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \/ LET t == Transpose(a) IN
          /\ a' = IF Wrong /\ Len(a.d) = 3 THEN [t EXCEPT !.v = a.v] ELSE t
          /\ f' = [x \in Indices(Rev(a.d)) |-> f[Rev(x)]]
     \/ \E b \in Boxes(a.d) : a' = Slice(a, b[1], b[2]) /\ f' = [x \in Indices(b[2]) |-> f[Add2(x, b[1])]]
     \/ /\ Len(a.d) > 1
        /\ \E t \in 0..(a.d[Len(a.d)] - 1) : a' = SliceTime(a, t) /\ f' = [x \in Indices(Front(a.d)) |-> f[Append(x, t)]]
     \/ /\ Len(a.d) < MaxNd /\ Prod(a.d) * 2 <= MaxLen
        /\ LET b == Map(a, LAMBDA x : x + 100) IN
           \/ a' = Stack(<<a, b>>) /\ f' = [x \in Indices(a.d \o <<2>>) |-> f[Front(x)] + 100 * x[Len(x)]]
           \/ a' = Concat(<<a, b>>) /\ f' = [x \in Indices(<<2>> \o a.d) |-> f[Tail(x)] + 100 * x[1]]
Spec == Init /\ [][Next]_vars

Same == Indices(a.d) = DOMAIN f /\ Len(a.v) = Prod(a.d) /\ \A x \in DOMAIN f : At(a, x) = f[x] /\ Index(a.d, Lin(a.d, x)) = x
Laws ==
  /\ Transpose(Transpose(a)) = [a EXCEPT !.c = 0]
  /\ Len(a.d) > 1 => Stack([k \in 1..a.d[Len(a.d)] |-> SliceTime(a, k - 1)]) = a
  /\ Len(a.d) > 1 => Concat([k \in 1..a.d[1] |-> [Slice(a, <<k - 1>> \o Zeros(Len(a.d) - 1), <<1>> \o Tail(a.d)) EXCEPT !.d = Tail(a.d)]]) = a
  /\ \A b \in Boxes(a.d) : \A b2 \in Boxes(b[2]) : Slice(Slice(a, b[1], b[2]), b2[1], b2[2]) = Slice(a, Add2(b[1], b2[1]), b2[2])
  /\ Len(a.d) > 1 => \A b \in Boxes(Tail(a.d)) : SubBox([a EXCEPT !.c = 1], b[1], b[2]) = [Slice(a, <<0>> \o b[1], <<a.d[1]>> \o b[2]) EXCEPT !.c = 1]
  /\ \A x \in Indices(a.d) : LerpInside(a, [i \in 1..Len(x) |-> 4 * x[i]]) => Lerp(a, [i \in 1..Len(x) |-> 4 * x[i]]) = <<64 * At(a, x)>>
====
