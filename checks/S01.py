"""S01: points, pieces, labels and slices of the level-set trackers against Contour."""
import json
from concurrent.futures import ThreadPoolExecutor
from M01 import J

class Case:
    def line(self):
        return J(self.id, self.nd, *self.dims, *self.lo, *self.sz, self.nth, self.backend, self.partial, self.root, self.sched, self.rep, self.q, self.thr2, self.T,
                 *[v for s in self.s for v in s])
    def merge(self, rec):
        if rec is None: return None
        r = json.loads(rec)
        N = 1
        for d in self.dims: N *= d
        r["kind"] = "%dd" % self.nd
        r["h"] = dict(mesh="reg", nd=self.nd, dims=self.dims, lo=self.lo, sz=self.sz, N=N, T=self.T, thr2=self.thr2, s=self.s, ex=int(4096 * float(self.q) * self.thr2 / 2))
        return r

def field(r, c, N):
    k = r.random()
    if k < .35: return [[r.randint(-3, 3) for _ in range(N)] for _ in range(c.T)]
    if k < .5: return [[r.choice((c.thr2 // 2, c.thr2 // 2 + 1, c.thr2 // 2 - 1)) for _ in range(N)] for _ in range(c.T)]   # ties dominate
    if k < .85:                                                                                                         # moving blobs: closed curves, merging and splitting
        bl = [[r.uniform(0, d - 1) for d in c.dims] + [r.uniform(-1, 1) for _ in c.dims] for _ in range(r.randint(1, 2))]; rad = r.uniform(.5, 2.5); out = []
        for t in range(c.T):
            s = []
            for g in range(N):
                p, x = g, []
                for d in c.dims: x.append(p % d); p //= d
                s.append(max(-6, min(6, round(min(sum((x[i] - b[i] - b[i + c.nd] * t) ** 2 for i in range(c.nd)) for b in bl) - rad ** 2))))
            out.append(s)
        return out
    base = [r.randint(-3, 3) for _ in range(N)]
    return [[v + r.choice((0, 0, t)) for v in base] for t in range(c.T)]

def cases(ctx, n, base=0, big=False, par=False):
    r = ctx.rng; out = []
    for i in range(n):
        c = Case(); c.id = base + i; c.nd = 2 if r.random() < .6 else 3
        hi = (5 if c.nd == 2 else 3) + (1 if big else 0)
        c.dims = [r.randint(2, hi) for _ in range(c.nd)]
        if par: c.dims[0] = r.randint(4, 6)
        c.lo, c.sz = [0] * c.nd, list(c.dims)
        if r.random() < .35:
            for k in range(c.nd):
                if c.dims[k] > 2: c.lo[k] = r.randint(0, 1); c.sz[k] = r.randint(2 if not par or k else 3, c.dims[k] - c.lo[k])
        c.nth = r.choice((1, 1, 2, 4)); c.backend = 0; c.partial = 0; c.root = 0; c.sched = r.randint(0, 2); c.rep = r.choice((0, 0, 0, 1))
        c.q = r.choice(("1", "1", "0.5", "0.25", "0.015625", "0.0000019073486328125", "4")); c.T = r.choice((1, 2, 2, 3)) if c.nd == 2 else r.choice((1, 2, 2))
        c.thr2 = r.choice((0, 0, 1, -1, 2, 3)); N = 1
        for d in c.dims: N *= d
        c.s = field(r, c, N)
        out.append(c)
    return out

def check(ctx):
    ctx.model("MCContour", "MCContour.cfg")
    if not ctx.quick: ctx.model("MCContour", "MCContour32.cfg")
    ctx.model("MCContour", "MCContourNeg.cfg", expect_violation="CellOk is violated")
    exe = ctx.build("contour", flags=["-D_GLIBCXX_ASSERTIONS"])
    cs = cases(ctx, 300 if ctx.quick else 3000)
    recs = ctx.run_cases(exe, [c.line() for c in cs], "surface")
    ctx.validate("ContourTrace", [c.merge(o) for c, o in zip(cs, recs)], "Trace.cfg", name="surface")
    for np in (2, 3) if ctx.quick else (2, 3, 4):
        cs = cases(ctx, 40 if ctx.quick else 300, np * 10000, par=True)
        for c in cs: c.partial = ctx.rng.randint(0, 1); c.root = ctx.rng.choice((0, 0, np - 1))
        recs = ctx.run_cases(exe, [c.line() for c in cs], "np%d" % np, np=np, chunks=2)
        ctx.validate("ContourTrace", [c.merge(o) for c, o in zip(cs, recs)], "Trace.cfg", name="np%d" % np)
    ctx.assumptions += ["field values are small integers times a power of two", "single-process and group runs with whole or partial arrays; CUDA is not available"]
