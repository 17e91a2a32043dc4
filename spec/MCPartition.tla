---- MODULE MCPartition ----
(***************************************************************************)
(* The cutting algorithm as a state machine: a list of blocks, each step    *)
(* replaces every block by f pieces along one dimension (equal pieces, the  *)
(* last takes the remainder).  Invariant: the blocks always tile the domain,*)
(* and the clamped ghost extension of each contains it.                     *)
(***************************************************************************)
EXTENDS Partition, TLC
VARIABLES dom, blocks, steps
Starts == {<<0, 0>>, <<2, 5>>}
Init == /\ \E s \in Starts : \E z \in [1..2 -> 1..7] : dom = <<s, z>>
        /\ blocks = <<dom>> /\ steps = 0
Piece(b, dim, f, k) ==
  LET w == b[2][dim] \div f IN
  << [b[1] EXCEPT ![dim] = @ + k * w], [b[2] EXCEPT ![dim] = IF k = f - 1 THEN @ - w * (f - 1) ELSE w] >>
Cut(dim, f) ==
  /\ \A j \in DOMAIN blocks : blocks[j][2][dim] >= f
  /\ blocks' = [j \in 1..(Len(blocks) * f) |-> Piece(blocks[((j - 1) \div f) + 1], dim, f, (j - 1) % f)]
  /\ UNCHANGED dom /\ steps' = steps + 1
Next == steps < 3 /\ \E dim \in 1..2 : \E f \in {2, 3, 5} : Cut(dim, f)
Spec == Init /\ [][Next]_<<dom, blocks, steps>>
TilesInv == Tiles(blocks, dom)
GhostInv == \A j \in DOMAIN blocks : \A g \in 0..2 :
              LET e == Ghost(blocks[j], dom, <<g, 1>>, <<1, g>>) IN Within(blocks[j], e) /\ Within(e, dom)
====
