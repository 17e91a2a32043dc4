---- MODULE MCPersist ----
(* A memory object and a file, written and read in either form in any order (F03): what is read equals what was written.
   A point is a number; in the table form it carries the key of its curve, as the library's points do. *)
EXTENDS Persist
CONSTANTS Keys, MaxPts, MaxCurves, Wrong
VARIABLES mem, disk, said, want
vars == <<mem, disk, said, want>>
Curves == { [key |-> k, loop |-> l, p |-> [i \in 1..n |-> i]] : k \in Keys, l \in BOOLEAN, n \in 0..MaxPts }
RECURSIVE SetsUpTo(_)
SetsUpTo(n) == IF n = 0 THEN { <<>> } ELSE LET T == SetsUpTo(n - 1) IN T \cup { Insert(S, c) : S \in { s \in T : Len(s) = n - 1 }, c \in Curves }
Keyed(S) == [i \in DOMAIN S |-> [S[i] EXCEPT !.p = [j \in DOMAIN S[i].p |-> <<S[i].key, S[i].p[j]>>]]]
Whole(S) == SelectSeq(S, LAMBDA c : c.p # <<>>)
\* reading a table: vertices come first, then lines; curves go to their keys
RECURSIVE FromCells(_, _, _)
FromCells(T, cs, S) == IF cs = <<>> THEN S ELSE
  LET c == Head(cs) k == T.pt[c[1] + 1][1] l == LineOf(T, c, k)
  IN FromCells(T, Tail(cs), TLCEval(Insert(S, [l EXCEPT !.p = [j \in DOMAIN l.p |-> l.p[j][2]]])))
IsVert(T, c) == Len(c) = 1 \/ (Len(c) = 2 /\ c[1] = c[2])
FromPoly(T) == FromCells(T, SelectSeq(T.cell, LAMBDA c : IsVert(T, c)) \o SelectSeq(T.cell, LAMBDA c : ~IsVert(T, c)), <<>>)
Init == mem = <<>> /\ disk = [fmt |-> "none"] /\ said = <<>> /\ want = [on |-> FALSE]
Set == \E S \in SetsUpTo(MaxCurves) : mem' = S /\ want' = [on |-> FALSE] /\ UNCHANGED <<disk, said>>
Write == \E f \in {"bin", "poly"} :
  /\ disk' = IF f = "bin" THEN [fmt |-> f, data |-> Bytes(mem)] ELSE [fmt |-> f, data |-> Poly(Keyed(mem))]
  /\ said' = mem /\ want' = [on |-> FALSE] /\ UNCHANGED mem
Read == /\ disk.fmt # "none"
        /\ mem' = IF disk.fmt = "bin" THEN Parse(disk.data, IF Wrong THEN mem ELSE <<>>) ELSE FromPoly(disk.data)
        /\ want' = [on |-> TRUE] /\ UNCHANGED <<disk, said>>
Next == Set \/ Write \/ Read
Spec == Init /\ [][Next]_vars
Same == want.on => IF disk.fmt = "bin" THEN mem = said ELSE Bag_(mem) = Bag_(Whole(said))
\* writing what was read stores the same again, up to the order of curves with one number
Again == want.on => IF disk.fmt = "bin" THEN Bytes(mem) = disk.data ELSE Bag_(FromPoly(Poly(Keyed(mem)))) = Bag_(mem)
====
