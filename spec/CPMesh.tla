---- MODULE CPMesh ----
(***************************************************************************)
(* Space-time meshes of the trackers.  A vertex of timestep t is the       *)
(* integer t*N + s, s the number of its spatial vertex; a simplex is the   *)
(* ascending sequence of its vertices.  The spatial cells are the          *)
(* Freudenthal simplices of a box (kind "reg") or the listed triangles     *)
(* (kind "tri"); a slab [t,t+1] is the staircase extrusion of each cell.   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Facets(c) == {Drop(c, k) : k \in 1..Len(c)}

Perms(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]}
Perms2 == Perms(2)
Perms3 == Perms(3)
RECURSIVE Stride(_, _)
Stride(dims, i) == IF i = 1 THEN 1 ELSE dims[i - 1] * Stride(dims, i - 1)
RECURSIVE Steps(_, _, _)
Steps(dims, p, k) == IF k = 0 THEN 0 ELSE Stride(dims, p[k]) + Steps(dims, p, k - 1)

Box(lo, hi) == IF Len(lo) = 2 THEN {<<x, y>> : x \in lo[1]..hi[1], y \in lo[2]..hi[2]}
               ELSE {<<x, y, z>> : x \in lo[1]..hi[1], y \in lo[2]..hi[2], z \in lo[3]..hi[3]}
RECURSIVE Flat(_, _, _)
Flat(dims, p, k) == IF k = 0 THEN 0 ELSE p[k] * Stride(dims, k) + Flat(dims, p, k - 1)

\* lo, sz: the spatial box the tracker works on; dims: the array it is part of
RegCells(dims, lo, sz) ==
  LET nd == Len(dims)
      hi == [i \in 1..nd |-> lo[i] + sz[i] - 2]
  IN {[k \in 1..(nd + 1) |-> Flat(dims, b, nd) + Steps(dims, p, k - 1)] :
        b \in Box(lo, hi), p \in (IF nd = 2 THEN Perms2 ELSE Perms3)}
SpaceCells(h) == IF h.mesh = "reg" THEN RegCells(h.dims, h.lo, h.sz) ELSE {h.tris[i] : i \in 1..Len(h.tris)}

AtTime(c, N, t) == [i \in 1..Len(c) |-> c[i] + t * N]
Ordinals(cells, N, t) == {AtTime(c, N, t) : c \in cells}
Stair(c, N, t, k) == [i \in 1..(Len(c) + 1) |-> IF i <= k THEN c[i] + t * N ELSE c[i - 1] + (t + 1) * N]
SlabCells(cells, N, t) == {Stair(c, N, t, k) : c \in cells, k \in 1..(Len(CHOOSE c \in cells : TRUE))}
Spans(f, N) == f[1] \div N # f[Len(f)] \div N
Intervals(cells, N, t) == {f \in UNION {Facets(c) : c \in SlabCells(cells, N, t)} : Spans(f, N)}
====
