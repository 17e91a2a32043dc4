---- MODULE MCRegion ----
(* Streaming: images arrive one by one, only two are kept; the graph of all regions results (Isolated = FALSE forgets
   regions without overlap: negative control).  Region <<t, r>> is named by its cells r. *)
EXTENDS Region
CONSTANTS Wd, Ht, T, Isolated
Cells == 0..(Wd * Ht - 1)
VARIABLES hist, win, N, L
vars == <<hist, win, N, L>>
Init == hist = <<>> /\ win = <<>> /\ N = {} /\ L = {}
Push == /\ Len(hist) < T
        /\ \E S \in SUBSET Cells :
            LET t == Len(hist) R == Regions(Wd, S) IN
            /\ hist' = Append(hist, S) /\ win' = IF win = <<>> THEN <<R>> ELSE <<win[Len(win)], R>>
            /\ L' = L \cup (IF win = <<>> THEN {} ELSE { << <<t - 1, a>>, <<t, b>> >> : <<a, b>> \in { x \in win[Len(win)] \X R : x[1] \cap x[2] # {} } })
            /\ N' = N \cup (IF Isolated THEN { <<t, r>> : r \in R } ELSE { x[2] : x \in L' } \cup { x[1] : x \in L' })
Spec == Init /\ [][Push]_vars
Img(t) == hist[t + 1]
TS == 0..(Len(hist) - 1)
Nodes == N = UNION { { <<t, r>> : r \in Regions(Wd, Img(t)) } : t \in TS }
Links == \A a, b \in N : (<<a, b>> \in L) <=> (b[1] = a[1] + 1 /\ a[2] \cap b[2] # {})
\* a label follows a region through consecutive times, one region at each
Follows == \A c \in Chains(N, L) : \A a, b \in c :
    /\ a[1] = b[1] => a = b
    /\ \A t \in TS : a[1] < t /\ t < b[1] => \E n \in c : n[1] = t
\* between two times, a region either keeps its label or takes part in exactly one event
Events == \A t \in TS : t + 1 \in TS => LET Ev == EventsIn(N, L, t, t + 1) IN
    /\ \A n \in At(N, t) : LET k == \E m \in At(N, t + 1) : \E c \in Chains(N, L) : n \in c /\ m \in c IN
         Cardinality({ e \in Ev : n[2] \in e[1] }) = IF k THEN 0 ELSE 1
    /\ \A n \in At(N, t + 1) : LET k == \E m \in At(N, t) : \E c \in Chains(N, L) : n \in c /\ m \in c IN
         Cardinality({ e \in Ev : n[2] \in e[2] }) = IF k THEN 0 ELSE 1
    /\ \A e \in Ev : Kind(e) # "none"
====
