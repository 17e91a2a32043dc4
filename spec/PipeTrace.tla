---- MODULE PipeTrace ----
(***************************************************************************)
(* The command-line tool as a state machine over files.  A session works   *)
(* on one input series; every command writes result files: the discrete    *)
(* points, the trajectories or their slices.  A command may start from     *)
(* the series or from a file an earlier command wrote (archived points or  *)
(* trajectories).  Every option acts as named and on nothing else; input   *)
(* format, threads, blocks, processes and asynchronous reading leave no    *)
(* trace in the results.  What a file must hold is the meaning of the      *)
(* command (CPTrace) applied to the series or to the archived file.        *)
(*   o.ad, o.at  archived points / trajectories read ("" : none)           *)
(*   o.tf        types kept (sum of type bits, -1: all)                    *)
(*   o.deg, o.st degrees asked for, trajectories grown online              *)
(*   out         the file written, got the kind of its contents            *)
(***************************************************************************)
EXTENDS CPTrace

PStartBad(r) == {}
\* the run over the whole series (does not depend on the options)
PStart(r) ==
  LET h == Derive(r.h) T == Len(h.snaps)
      prs == {<<t, t + 1, IF t < T - 1 THEN t + 2 ELSE 0>> : t \in 0..(T - 1)}
  IN [run |-> [Fresh(h) EXCEPT !.ct = T - 1, !.prs = prs, !.found = TLCEval(UNION {Processed(h, pr) : pr \in prs}), !.fin = TRUE],
      fs |-> <<>>]

RECURSIVE FlatTr(_, _)
FlatTr(tr, i) == IF i > Len(tr) THEN <<>> ELSE tr[i].p \o FlatTr(tr, i + 1)
Named(st, f) == CHOOSE i \in DOMAIN st.fs : st.fs[i].name = f
File(st, f) == st.fs[Named(st, f)]
Known(st, f) == \E i \in DOMAIN st.fs : st.fs[i].name = f

\* the run with the options of a command; online tracing grows the curves when the next timestep
\* arrives: the points of the last one are left out
TimeOf(h, f) == f[1] \div h.N
With(st, o) == [st.run EXCEPT !.h = [@ EXCEPT !.tf = o.tf, !.deg = o.deg, !.stream = o.st],
                              !.abs = IF o.st = 1 THEN {f \in st.run.found : st.run.h.mesh = "tri" \/ TimeOf(st.run.h, f) < st.run.ct} ELSE {}]
\* trajectories over the points P (some of which may have been filtered out: those curves may end anywhere)
Traced(s, P, tr, filtered) == BadBatch([s EXCEPT !.pts = P, !.h = [@ EXCEPT !.tf = IF filtered THEN 0 ELSE -1]], tr)

PointsBad(st, e) ==
  IF e.o.ad # "" THEN (IF {Strip(p) : p \in Range2(e.p)} # File(st, e.o.ad).p \/ Len(e.p) # Cardinality(File(st, e.o.ad).p) THEN {"archive-points"} ELSE {})
  ELSE LET s == With(st, e.o) IN BadPoints(s, e.p, s.found)

CurvesBad(st, e) ==
  LET s == With(st, e.o) IN
  IF e.o.at # "" THEN (IF (e.text = 0 /\ Range2(e.tr) # Range2(File(st, e.o.at).tr)) \/ Len(e.tr) # Len(File(st, e.o.at).tr) THEN {"archive-curves"} ELSE {}) \cup
                      (IF e.text = 1 /\ {<<c.k, Faces(c)>> : c \in Range2(e.tr)} # {<<c.k, Faces(c)>> : c \in Range2(File(st, e.o.at).tr)} THEN {"archive-curves"} ELSE {})
  ELSE IF e.o.ad # "" THEN Traced(s, File(st, e.o.ad).p, e.tr, File(st, e.o.ad).tf >= 0)
  ELSE IF e.o.st = 1 THEN BadOnline([s EXCEPT !.tr = e.tr], e.tr) \cup UNION {BadStats(e.tr[i]) : i \in DOMAIN e.tr}
  ELSE LET P == FlatTr(e.tr, 1) IN BadPoints(s, P, s.found) \cup Traced(s, {Strip(p) : p \in Range2(P)}, e.tr, e.o.tf >= 0)

RECURSIVE FlatSl(_, _)
FlatSl(sl, i) == IF i > Len(sl) THEN <<>> ELSE sl[i].p \o FlatSl(sl, i + 1)
SlicesBad(st, e) ==
  LET s == With(st, e.o) P == FlatSl(e.sl, 1) IN
  (IF \E i \in DOMAIN e.sl : \E p \in Range2(e.sl[i].p) : p.ts # e.sl[i].t \/ ~p.o THEN {"slice-file"} ELSE {}) \cup
  IF e.o.at # "" THEN
    LET want == {<<p.f, p.ts, p.ty, p.id>> : p \in {q \in AllPts(File(st, e.o.at).tr) : q.o}}
        got == {<<p.f, p.ts, p.ty, p.id>> : p \in Range2(P)}
    IN IF got # want \/ Len(P) # Cardinality(want) THEN {"slice-points"} ELSE {}
  ELSE BadPoints(s, P, {f \in (IF e.o.st = 1 THEN s.abs ELSE s.found) : ~Spans(f, s.h.N)})

\* intercepts: the part of every curve within o.len timesteps before (and up to) a timestep
CutsBad(st, e) ==
  LET C == Range2(File(st, e.o.at).tr)
      T == st.run.ct + 1
      Cut(t) == {<<w.k, Faces(w), [q \in DOMAIN w.p |-> w.p[q].ty]>> : w \in {x \in {[k |-> c.k, p |-> Window(c, t - e.o.len, t)] : c \in C} : Len(x.p) > 0}}
      Got(t) == UNION {{<<c.p[1].id, Faces(c), [q \in DOMAIN c.p |-> c.p[q].ty]>> : c \in Range2(e.sl[z].c)} : z \in {j \in DOMAIN e.sl : e.sl[j].t = t}}
  IN IF \E t \in 0..(T - 1) : Cut(t) # Got(t) THEN {"intercepts"} ELSE {}

PBad(st, e) ==
  IF (e.o.ad # "" /\ ~Known(st, e.o.ad)) \/ (e.o.at # "" /\ ~Known(st, e.o.at)) THEN {"unknown-event"} ELSE
  CASE e.op = "points" -> PointsBad(st, e)
    [] e.op = "curves" -> CurvesBad(st, e)
    [] e.op = "slices" -> SlicesBad(st, e)
    [] e.op = "cuts" -> CutsBad(st, e)
    [] e.op = "failed" -> {"command-failed"}
    [] OTHER -> {"unknown-event"}
PApply(st, e) ==
  CASE e.op = "points" -> [st EXCEPT !.fs = Append(@, [name |-> e.out, p |-> {Strip(p) : p \in Range2(e.p)}, tr |-> <<>>, tf |-> e.o.tf])]
    [] e.op = "curves" -> [st EXCEPT !.fs = Append(@, [name |-> e.out, p |-> {}, tr |-> e.tr, tf |-> e.o.tf])]
    [] OTHER -> st
====
