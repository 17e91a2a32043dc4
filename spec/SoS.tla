---- MODULE SoS ----
(***************************************************************************)
(* Exact "does a linear vector field vanish in this simplex", with ties    *)
(* resolved by Simulation of Simplicity (Edelsbrunner & Muecke): every     *)
(* value V[r][j] is perturbed by eps^(2^(r*d-j)), the zero point ranks     *)
(* below every vertex, rows are given in ascending vertex order.  The sign *)
(* of a perturbed determinant is the sign of its first non-vanishing       *)
(* coefficient in the ascending order of the monomials.                    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt

SgnI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

Det2(A) == A[1][1] * A[2][2] - A[1][2] * A[2][1]
Det3(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2])
         - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1])
         + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Minor1(A, c) == [r \in 1..(Len(A) - 1) |-> DropAt(A[r + 1], c)]
Det4(A) == A[1][1] * Det3(Minor1(A, 1)) - A[1][2] * Det3(Minor1(A, 2))
         + A[1][3] * Det3(Minor1(A, 3)) - A[1][4] * Det3(Minor1(A, 4))
Det(A) == IF Len(A) = 2 THEN Det2(A) ELSE IF Len(A) = 3 THEN Det3(A) ELSE Det4(A)

\* partial matchings rows 1..d+1 -> columns 1..d (0: row not perturbed), by weight
RECURSIVE WSum(_, _, _)
WSum(M, d, r) == IF r = 0 THEN 0
                 ELSE (IF M[r] = 0 THEN 0 ELSE 2 ^ ((r - 1) * d + d - M[r])) + WSum(M, d, r - 1)
MatchingSet(d) ==
  {M \in [1..(d + 1) -> 0..d] :
     \A a, b \in 1..(d + 1) : a < b /\ M[a] /= 0 => M[a] /= M[b]}
MatchingSeq(d) == SetToSortSeq(MatchingSet(d), LAMBDA a, b : WSum(a, d, d + 1) < WSum(b, d, d + 1))
Match1 == MatchingSeq(1)
Match2 == MatchingSeq(2)
Match3 == MatchingSeq(3)
Matchings(d) == IF d = 1 THEN Match1 ELSE IF d = 2 THEN Match2 ELSE Match3

\* rows of V extended by the homogeneous 1, rows matched by M replaced by a unit row
Hom(V) == [r \in 1..Len(V) |-> Append(V[r], 1)]
UnitRow(n, j) == [c \in 1..n |-> IF c = j THEN 1 ELSE 0]
PDet(V, M) == Det([r \in 1..Len(V) |-> IF M[r] = 0 THEN Append(V[r], 1) ELSE UnitRow(Len(V), M[r])])

RECURSIVE FirstSign(_, _, _)
FirstSign(V, Ms, k) == LET s == SgnI(PDet(V, Ms[k])) IN IF s /= 0 THEN s ELSE FirstSign(V, Ms, k + 1)

\* sign of the perturbed orientation of the value rows V (never 0)
SgnP(V) == LET s == SgnI(Det(Hom(V))) IN
           IF s /= 0 THEN s ELSE FirstSign(V, Matchings(Len(V) - 1), 2)

\* zero of the perturbed field inside the simplex with value rows V (ascending vertices)
ZeroIn(V) ==
  LET d == Len(V) - 1
      z == [j \in 1..d |-> 0]
      s0 == SgnP(V)
  IN \A i \in 1..(d + 1) :
        s0 = (IF i % 2 = 1 THEN 1 ELSE -1) * SgnP(<<z>> \o DropAt(V, i))

\* barycentric numerators of the zero: mu_i = Num(V,i)/Den(V) when Den(V) # 0
Den(V) == Det(Hom(V))
Num(V, i) == LET n == Len(V) IN Det([r \in 1..n |-> IF r = i THEN UnitRow(n, n) ELSE Append(V[r], 1)])
====
