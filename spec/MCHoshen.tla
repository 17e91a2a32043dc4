---- MODULE MCHoshen ----
(* The raster scan with a union-find of provisional labels, on every image: labels the regions, and the label array of
   Cap entries (entry 0 is the counter) suffices. *)
EXTENDS Region
CONSTANTS Wd, Ht, Cap
Cells == 0..(Wd * Ht - 1)
VARIABLES img, lab, par, cnt, pos
vars == <<img, lab, par, cnt, pos>>
Init == img \in SUBSET Cells /\ lab = [c \in Cells |-> 0] /\ par = [l \in 0..(Wd * Ht) |-> l] /\ cnt = 0 /\ pos = 0
RECURSIVE Find(_, _)
Find(p, x) == IF p[x] = x THEN x ELSE Find(p, p[x])
Lf == IF pos % Wd = 0 THEN 0 ELSE lab[pos - 1]
Up == IF pos < Wd THEN 0 ELSE lab[pos - Wd]
Next == /\ pos \in Cells /\ pos' = pos + 1 /\ UNCHANGED img
        /\ CASE pos \notin img -> UNCHANGED <<lab, par, cnt>>
             [] pos \in img /\ Lf = 0 /\ Up = 0 -> cnt' = cnt + 1 /\ lab' = [lab EXCEPT ![pos] = cnt + 1] /\ UNCHANGED par
             [] pos \in img /\ Lf # 0 /\ Up # 0 -> /\ par' = [par EXCEPT ![Find(par, Up)] = Find(par, Lf)]
                                                  /\ lab' = [lab EXCEPT ![pos] = Find(par, Lf)] /\ UNCHANGED cnt
             [] OTHER -> lab' = [lab EXCEPT ![pos] = IF Lf = 0 THEN Up ELSE Lf] /\ UNCHANGED <<par, cnt>>
Spec == Init /\ [][Next]_vars
Fits == cnt < Cap
Labelled == pos = Wd * Ht => { { c \in img : Find(par, lab[c]) = l } : l \in { Find(par, lab[c]) : c \in img } } = Regions(Wd, img)
====
