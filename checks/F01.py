"""F01: slices, selections and time windows agree with the trajectories."""
import cpcases as K, cpcheck
ONLY = ["slice-repeated", "slice-points", "slice-missing", "window", "selection", "stat-time", "stat-box", "stat-scalar", "stat-type",
        "number-on-points", "number-not-unique"]

def cases(ctx, n):
    r = ctx.rng; out = []
    for i in range(n):
        m = r.choice((2, 2, 2, "tri", "tri", 3))
        kw = K.random_shape(r, m)
        t0 = r.choice((0, 0, 2))
        c = K.Case(i, t0=t0, stream=int(r.random() < .35), only=ONLY, sca=r.randint(0, 1), jac=r.randint(0, 1), sym=r.randint(0, 1), **kw)
        nt = r.choice((2, 3, 4)) if m != 3 else 2
        K.fill(r, c, nt); K.schedule(r, c, nt, check=False)
        c.op("F").op("T")
        for _ in range(r.randint(2, 6)):
            a = r.choice("LLIIXY")
            if a == "I":
                lo = t0 + r.randint(-1, nt); c.op("I", lo, lo + r.randint(0, 2))
            elif a == "X": c.op("X", r.randint(1, 4))
            elif a == "Y":
                c.op("L").op("Y", r.choice((2, 4, 8, 14, 1, 127)))
                if r.random() < .7: c.op("L")
            else: c.op(a)
        out.append(c)
    return out

def check(ctx):
    cpcheck.run(ctx, cases(ctx, 460 if ctx.quick else 7000), name="slices")
