"""F02: edits of trajectories against Curve."""
from M01 import J

def curve(r, label):
    n = r.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 10]); k = r.random()
    types = r.choice([[1, 2], [0, 1, 2], [2, 4, 8], [5], [0, 4], [0]])
    back = r.random() < .3; T = r.randint(0, 4); t = 8 * T; pts = []; ty = r.choice(types); pos = [r.randint(-20, 20) for _ in range(3)]
    for i in range(n):
        if r.random() < .35: ty = r.choice(types)
        o = int(r.random() < r.choice([.2, .5, .9]))
        if k < .75: t += r.choice([0, 1, 3, 5, 8])
        else: t = r.randint(0, 60)
        if o: t = (t + 7) // 8 * 8
        jump = r.random() < .2
        for d in range(3): pos[d] = r.randint(-400, 400) if jump and d == 0 else pos[d] + r.randint(-3, 3)
        pts.append([ty, t // 8, t, o, pos[0], pos[1], pos[2] % 16, r.randint(-9, 9), r.randint(-9, 9), r.randint(-9, 9), r.randint(-9, 9), r.randint(0, 10 ** 6)])
    if back: pts.reverse()
    return J(label, int(r.random() < .4), r.randint(0, 1), n, " ".join(J(*p) for p in pts))

def op(r):
    k = r.choice(["rotate", "rotate", "reorder", "adjust", "smooth", "smooth_ordinals", "discard", "velocity", "split", "split", "filter", "relabel", "unwrap", "intercept", "add", "query"])
    a = {"rotate": [0, 1], "reorder": [0, 1], "adjust": [0, 1], "smooth": [1, 2, 2], "smooth_ordinals": [1, 2, 3], "discard": [-1, -2, -3, 0, 1, 2, 4], "velocity": [0, 1],
         "split": [0, 1], "filter": [0, 1, 2, 4], "relabel": [0], "unwrap": [16], "intercept": [0, 1, 2, 3], "add": [0, 1], "query": [0, 1, 2, 4]}[k]
    a = r.choice(a)
    if k == "intercept": return J(k, a, a + r.randint(0, 4))
    if k == "add": return J(k, a, curve(r, r.choice([-1, -1, 0, 2, 7])))
    return J(k, a)

def cases(ctx):
    r = ctx.rng; out = []
    for i in range(500 if ctx.quick else 6000):
        nc = r.randint(1, 3)
        if r.random() < .4: ops = ["query 1", "smooth 2", "rotate 0", "split 0", "query 2"] + (["discard -1"] if r.random() < .5 else []) + ["reorder 0", "adjust 1", "velocity 1"]
        else: ops = [op(r) for _ in range(r.randint(1, 7))]
        seen = False; keep = []
        for o in ops:                        # unwrapping is for curves whose coordinate lies within one period
            if o.startswith("unwrap") and seen: continue
            seen = seen or o.startswith("unwrap"); keep.append(o)
        out.append(J(i, nc, " ".join(curve(r, r.choice([0, 0, 1, 2, 5])) for _ in range(nc)), len(keep), " ".join(keep)))
    return out

def check(ctx):
    ctx.model("MCCurve", "MCCurve.cfg" if ctx.quick else "MCCurve5.cfg")
    ctx.model("MCCurve", "MCCurveNeg.cfg", expect_violation="Consistent is violated")
    exe = ctx.build("curve", flags=["-D_GLIBCXX_ASSERTIONS"])
    recs = ctx.run_cases(exe, cases(ctx), "curve")
    ctx.validate("CurveTrace", recs, "Trace.cfg")
    ctx.assumptions += ["times, positions and velocities are small dyadic numbers, so that every statistic is exact", "conversion to geographic coordinates is not explored (floating-point formulas)"]
