"""T05: online tracing grows the trajectories as it goes."""
import cpcases as K, cpcheck
ONLY = ["points-absorbed", "not-adjacent", "number-not-unique", "number-on-points", "curve-lost", "curve-cut", "complete-grew",
        "not-extended", "component-split", "missing", "spurious", "duplicate", "tag", "x", "t", "stat-time", "stat-box", "stat-scalar", "stat-type"]

def cases(ctx, n):
    r = ctx.rng; out = []
    for i in range(n):
        m = r.choice((2, 2, 2, "tri", "tri", 3))
        kw = K.random_shape(r, m)
        if m == 2 and r.random() < .4: kw = dict(dims=[r.randint(4, 7), r.randint(4, 7)])
        c = K.Case(i, t0=r.choice((0, 0, 2)), stream=1, only=ONLY, sca=r.randint(0, 1), nth=r.choice((1, 2)), **kw)
        nt = r.choice((3, 4, 5)) if m != 3 else r.choice((2, 3))
        K.fill(r, c, nt, nanp=r.choice((0, 0, 0, .05)))
        K.schedule(r, c, nt)
        c.op("C").op("T").op("F").op("T"); out.append(c)
    return out

def check(ctx):
    cpcheck.run(ctx, cases(ctx, 600 if ctx.quick else 6000), name="online")
