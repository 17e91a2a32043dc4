"""D01: streams deliver every timestep exactly once, in order, with the requested processing."""
import itertools, math, os
from M01 import J

def gk(sigma, n):
    c = (n - 1) * .5; w = [math.exp(-(i - c) ** 2 / (2. * sigma * sigma)) for i in range(n)]; s = sum(w)
    return [int(round(x / s * 10000)) for x in w]
def gknd(sigma, n, nd):
    c = (n - 1) * .5; w = []
    for q in range(n ** nd):
        r = sum((((q // n ** d) % n) - c) ** 2 for d in range(nd)); w.append(math.exp(-r / (2. * sigma * sigma)))
    s = sum(w); return [int(round(x / s * 10000)) for x in w]

def check(ctx):
    r = ctx.rng
    for m, c, neg in [("MCStream", "MCStream.cfg", None), ("MCStream", "MCStreamStop.cfg", None), ("MCStream", "MCStreamNeg.cfg", "InOrder is violated"),
                      ("MCStream", "MCStreamNeg2.cfg", "InOrder is violated"), ("MCFilter", "MCFilter.cfg", None), ("MCFilter", "MCFilterNeg.cfg", "All is violated")]:
        ctx.model(m, c, **({"expect_violation": neg} if neg else {}))
    exe = ctx.build("stream", libs=None)
    env = {"VERIF_SCRATCH": ctx.work}
    cs = []
    # the temporal filter alone, integer kernels, every length
    for K in (1, 3, 5, 7, 9):
        for n in range(0, 2 * K + 3):
            ln = r.randint(1, 3); ker = [r.randint(-9, 9) for _ in range(K)]
            x = [[r.randint(-50, 50) for _ in range(ln)] for _ in range(n)]
            cs.append(J("filter", r.choice((32, 64)), n, K, ker, ln, *x))
    def st(src, asy, nf, limit=-1, arr=None, nv=1, dim=(2, 2), clamp=None, tk=0, tsig=1.0, sk=0, ssig=1.0, strat=None, pre=(), f=None, tkn=1):
        cs.append(J("stream", f or r.choice((32, 64)), len(cs), src, asy, r.randint(1, 99999), r.choice((1, 2, 3)) if strat is None else strat,
                    nf, limit, r.randint(0, 1) if arr is None else arr, nv, len(dim), list(dim), 1 if clamp else 0, list(clamp or (0, 0)),
                    tk, tsig, tkn, gk(tsig, tk) if tk else [], sk, ssig, gknd(ssig, sk, len(dim)) if sk else [], len(pre), list(pre)))
    # asynchronous: all schedules with at most two (three) deviations from running each thread until it blocks
    P1, P2 = 28, 44
    def dev(pos, m): v = [0] * m; [v.__setitem__(p, 1) for p in pos]; return v
    for f in (0, 1):
        for a in range(P1):
            for b in range(a, P1): st("float64", 1, 1, f=64, strat=4, pre=[f] + dev((a, b), P1))
    trip = list(itertools.combinations(range(P2), 3))
    for pos in (r.sample(trip, 500) if ctx.quick else trip):
        st("float64", 1, r.choice((1, 2, 3)), f=64, strat=4, pre=[r.randint(0, 1)] + dev(pos, P2))
    src = ("float32", "float64")
    for _ in range(150 if ctx.quick else 3000): st(r.choice(src), 1, r.randint(1, 9), r.choice((-1, -1, r.randint(0, 10))), strat=r.choice((0, 1, 1, 2, 3)))
    for _ in range(60 if ctx.quick else 600):
        st(r.choice(src), r.randint(0, 1), r.randint(1, 13), r.choice((-1, -1, r.randint(0, 14))), nv=r.choice((1, 1, 1, 2)), dim=r.choice(((2, 2), (3, 2), (2, 1), (2, 2, 2))),
           clamp=r.choice((None, None, (r.randint(-40, 10), r.randint(10, 90)), (20, 20))), tk=r.choice((0, 1, 3, 5, 7)), tsig=r.choice((.5, 1., 2.)))
    for _ in range(20 if ctx.quick else 200):
        d3 = r.random() < .4
        st(r.choice(src), r.randint(0, 1), r.randint(1, 6), dim=r.choice(((3, 3, 3), (4, 3, 2))) if d3 else r.choice(((3, 3), (5, 4), (2, 6))),
           clamp=r.choice((None, (-2, 3))), tk=r.choice((0, 0, 3)), sk=3 if d3 else r.choice((3, 5)), ssig=r.choice((.5, 1., 2.)))
    for _ in range(4): st("float64", 0, r.randint(5, 9), tk=5, tsig=1., tkn=0)     # default kernel size
    for k in range(8 if ctx.quick else 40):
        k8 = k % 8; st("syn", r.randint(0, 1), k8, r.choice((-1, 0, 1, 2, 5)), dim=(4, 5, 3) if k8 in (4, 5, 7) else (4, 5), nv=1, clamp=None)
    recs = ctx.run_cases(exe, cs, "stream", env=env)
    ctx.validate("StreamTrace", recs, "Trace.cfg", name="stream")
    ctx.assumptions += ["finish() is called after start(), as the temporal filter requires", "kernels have odd size",
                        "spatially smoothed values are sums over the window divided by its size"]
