---- MODULE Partition ----
(***************************************************************************)
(* Decomposition of a block of lattice points among processes (M04).       *)
(* A block is <<starts, sizes>>.  Cutting repeatedly splits one dimension  *)
(* of every current block into f consecutive pieces.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Lo(b) == b[1]
Hi(b) == [i \in DOMAIN b[1] |-> b[1][i] + b[2][i] - 1]
Nonempty(b) == \A i \in DOMAIN b[2] : b[2][i] >= 1
Within(b, c) == \A i \in DOMAIN b[1] : Lo(c)[i] <= Lo(b)[i] /\ Hi(b)[i] <= Hi(c)[i]
Disjoint(b, c) == \E i \in DOMAIN b[1] : Hi(b)[i] < Lo(c)[i] \/ Hi(c)[i] < Lo(b)[i]
RECURSIVE ProdTo(_, _)
ProdTo(s, i) == IF i = 0 THEN 1 ELSE s[i] * ProdTo(s, i - 1)
Volume(b) == ProdTo(b[2], Len(b[2]))
RECURSIVE SumVol(_, _)
SumVol(bs, i) == IF i = 0 THEN 0 ELSE Volume(bs[i]) + SumVol(bs, i - 1)
\* blocks bs tile block d exactly: inside, pairwise disjoint, and of full volume
Tiles(bs, d) ==
  /\ \A i \in DOMAIN bs : Nonempty(bs[i]) /\ Within(bs[i], d)
  /\ \A i, j \in DOMAIN bs : i < j => Disjoint(bs[i], bs[j])
  /\ SumVol(bs, Len(bs)) = Volume(d)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* the block widened by lo/hi ghost layers, clamped to the domain
Ghost(b, d, lo, hi) ==
  LET l == [i \in DOMAIN b[1] |-> Max(Lo(d)[i], Lo(b)[i] - lo[i])]
      h == [i \in DOMAIN b[1] |-> Min(Hi(d)[i], Hi(b)[i] + hi[i])]
  IN <<l, [i \in DOMAIN b[1] |-> h[i] - l[i] + 1]>>
\* number of distinct slabs a tiling has along dimension i
Cuts(bs, i) == Cardinality({ Lo(bs[j])[i] : j \in DOMAIN bs })
\* tilings are products of per-dimension interval lists; pieces may differ in size
Pieces(bs, i) == { <<Lo(bs[j])[i], Hi(bs[j])[i]>> : j \in DOMAIN bs }
IsGrid(bs) == Len(bs) = ProdTo([i \in 1..Len(bs[1][1]) |-> Cardinality(Pieces(bs, i))], Len(bs[1][1]))
====
