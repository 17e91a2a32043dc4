---- MODULE Persist ----
(***************************************************************************)
(* How sets of curves are stored.  A set is a sequence of curves ordered   *)
(* by key, curves with one key in the order of their insertion; a curve    *)
(* has at least the fields key, loop and p (its points).                   *)
(*   Bytes / Parse  a stream of numbers: counts, then the members          *)
(*   Poly / Lines   a table of points with cells that list their positions:*)
(*                  curves of one point are vertices, a closed curve ends  *)
(*                  with its first point, empty curves leave no trace      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bag_(s) == [x \in { s[i] : i \in DOMAIN s } |-> Cardinality({ i \in DOMAIN s : s[i] = x })]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* ordered insertion by key, after the curves that have the same key
RECURSIVE Insert(_, _)
Insert(S, c) == IF S = <<>> THEN <<c>> ELSE IF Head(S).key > c.key THEN <<c>> \o S ELSE <<Head(S)>> \o Insert(Tail(S), c)

\* numbers
Num(b) == IF b THEN 1 ELSE 0
Bytes(S) == <<Len(S)>> \o Flat([i \in DOMAIN S |-> <<S[i].key, Num(S[i].loop), Len(S[i].p)>> \o S[i].p])
RECURSIVE ParseCurves(_, _, _, _)
ParseCurves(b, at, n, S) ==
  IF n = 0 THEN S
  ELSE LET k == b[at + 2] IN
       ParseCurves(b, at + 3 + k, n - 1, TLCEval(Insert(S, [key |-> b[at], loop |-> b[at + 1] = 1, p |-> SubSeq(b, at + 3, at + 2 + k)])))
Parse(b, into) == ParseCurves(b, 2, b[1], into)

\* tables
Sum(f) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN 0 ELSE f[i] + G(i - 1) IN G(Len(f))
Offset(S, i) == Sum([j \in 1..(i - 1) |-> Len(S[j].p)])
Cell(S, i) == LET n == Len(S[i].p) o == Offset(S, i) IN [j \in 1..(n + Num(S[i].loop)) |-> o + ((j - 1) % n)]
Cells(S) == LET full == SelectSeq([i \in DOMAIN S |-> i], LAMBDA i : S[i].p # <<>>) IN [k \in DOMAIN full |-> Cell(S, full[k])]
Points(S) == Flat([i \in DOMAIN S |-> S[i].p])
Poly(S) == [pt |-> Points(S), cell |-> Cells(S)]
LineOf(T, c, key) ==
  LET closed == Len(c) > 1 /\ c[1] = c[Len(c)] n == Len(c) - Num(closed)
  IN [key |-> key, loop |-> closed, p |-> [j \in 1..n |-> T.pt[c[j] + 1]]]
====
