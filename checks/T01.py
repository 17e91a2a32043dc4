"""T01: reported points are exactly the simplices the (symbolically perturbed) zero set crosses."""
import cpcases as K, cpcheck
ONLY = ["duplicate", "spurious", "missing", "tag", "x", "t", "scalar", "ordinal", "timestep"]

def cases(ctx, n, base=0):
    r = ctx.rng; out = []
    for i in range(n):
        m = r.choice((2, 2, 2, "tri", "tri", 3, 3))
        kw = K.coords_mode(r, K.random_shape(r, m))
        der = r.choice((0, 0, 0, 0, 1, 2)) if m == 2 else 0
        c = K.Case(base + i, t0=r.choice((0, 0, 0, 2)), t1=-1, sca=r.randint(0, 1) if not der else 0, only=ONLY, der=der,
                   jac=r.randint(0, 1) if not der else 0, sym=r.randint(0, 1), nth=r.choice((1, 1, 2, 4)), **kw)
        c.q = r.choice(("1", "1", "1", "0.5", "0.25", "0.015625", "4"))
        nt = r.choice((1, 2, 2, 3))
        K.fill(r, c, nt, nanp=r.choice((0, 0, 0, .1)))
        K.schedule(r, c, nt, check=False, lag=2)
        c.op("C"); out.append(c)
    return out

def check(ctx):
    ctx.model("MCSoS", "MCSoS2.cfg")
    if not ctx.quick: ctx.model("MCSoS", "MCSoS3.cfg")
    gmp, nogmp = cpcheck.builds(ctx)
    n = 900 if ctx.quick else 9000
    cpcheck.run(ctx, cases(ctx, n), gmp, "points")
    cpcheck.run(ctx, cases(ctx, n // 2, 100000), nogmp, "points-int")
    ctx.assumptions += ["field values are small integers times a power of two (exact in every arithmetic the trackers use)",
                        "where the interpolated system is singular only the hull of the simplex bounds the position"]
