"""T02: batch trajectories are the connected curves of the zero set."""
import cpcases as K, cpcheck
ONLY = ["not-a-curve", "empty-curve", "points-conserved", "not-adjacent", "component-split", "loop", "interior-end",
        "number-not-unique", "number-on-points", "early-trajectories"]

def cases(ctx, n):
    r = ctx.rng; out = []
    for i in range(n):
        m = r.choice((2, 2, 2, "tri", "tri", 3))
        kw = K.random_shape(r, m)
        if m == 2 and r.random() < .3: kw = dict(dims=[r.randint(4, 7), r.randint(4, 7)])
        c = K.Case(i, t0=r.choice((0, 0, 0, 2)), only=ONLY, nth=r.choice((1, 2, 4)),
                   tf=r.choice((-1, -1, -1, -1, 2, 4, 8)) if m != 3 else -1, jac=1 if r.random() < .6 else 0, sym=r.randint(0, 1), **kw)
        if c.tf > 0 and not c.jac: c.tf = -1
        nt = r.choice((2, 3, 4)) if m != 3 else r.choice((2, 3))
        K.fill(r, c, nt, nanp=r.choice((0, 0, 0, 0, .05)))
        K.schedule(r, c, nt, check=False)
        c.op("T").op("C").op("F").op("T"); out.append(c)
    return out

def check(ctx):
    ctx.model("MCSoS", "MCSoS2.cfg")
    cpcheck.run(ctx, cases(ctx, 400 if ctx.quick else 5000), name="batch")
    ctx.assumptions += ["the points handed to the tracing step are those the tracker reports before finalization (T01 decides them)"]
