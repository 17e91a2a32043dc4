"""T04: each timestep is examined once, with the right pair of snapshots, whatever the schedule."""
import re
import cpcases as K, cpcheck, vlib
ONLY = ["duplicate", "spurious", "missing", "changed", "current-timestep", "advance-result", "tag", "x", "t", "scalar", "ordinal", "timestep"]

def check(ctx):
    r = ctx.rng
    ctx.model("MCTracker", "MCTracker7.cfg")
    ctx.model("MCTracker", "MCTrackerNeg.cfg", expect_violation="Invariant Inv is violated")
    o = ctx.model("MCTracker", "MCTracker.cfg")
    sched = sorted(set(re.findall(r'"SCHEDULE",\s*<<([^>]*)>>', o)))
    sched = [re.findall(r'"(\w)"', s) for s in sched]
    if len(sched) < 900: raise vlib.MachineError("schedules not printed")
    ctx.rng.shuffle(sched)
    cases = []
    # every schedule of the model, replayed
    for i, s in enumerate(sched if not ctx.quick else sched[:400]):
        for m in ((2, "tri", 3) if not ctx.quick else (r.choice((2, 2, "tri", "tri", 3)),)):
            kw = K.random_shape(r, m)
            t0 = r.choice((0, 0, 3)) if "R" not in s else 0
            c = K.Case(len(cases), t0=t0, t1=r.choice((-1, -1, -1, t0 + 1)) if m != "tri" else -1, sca=1, only=ONLY, **kw)
            K.fill(r, c, 3 if "R" not in s else 6)
            n = 0; base = 0
            for a in s:
                if a == "P": c.op("P", base + n); n += 1
                elif a == "R":
                    c.op("C").op("R"); n = 0; base = r.choice((0, 3))
                    if r.random() < .5: c.op("C").op("T")
                elif a == "A": c.op("A").op("C")
                else: c.op("U").op("C")
            cases.append(c)
    # longer random schedules
    for i in range(120 if ctx.quick else 1200):
        m = r.choice((2, 2, "tri", 3))
        kw = K.random_shape(r, m)
        c = K.Case(len(cases), t0=r.choice((0, 1, 5)), sca=1, only=ONLY, **kw)
        nt = r.choice((4, 5, 6)) if m != 3 else 3
        K.fill(r, c, nt); K.schedule(r, c, nt)
        cases.append(c)
    cpcheck.run(ctx, cases, name="schedule")
    ctx.assumptions += ["the interval after a timestep is examined when the next snapshot is available as the timestep is advanced"]
    return dict(schedules_in_model=len(sched))
