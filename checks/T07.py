"""T07: points, surfaces, lines, labels and slices of the line trackers against Line."""
import json
from M01 import J

class Case:
    def line(self):
        return J(self.id, self.kind, *self.dims, *self.lo, *self.sz, self.nth, self.backend, self.partial, self.root, self.sched, self.rep, self.q, self.T,
                 *[v for s in self.d for v in s])
    def merge(self, rec):
        if rec is None: return None
        r = json.loads(rec)
        N = 1
        for d in self.dims: N *= d
        r["kind"] = self.kind
        r["h"] = dict(mesh="reg", kind=self.kind, dims=self.dims, lo=self.lo, sz=self.sz, N=N, T=self.T, d=self.d)
        return r

def pairs(r, c, N):
    k = r.random(); out = []
    if k < .25: return [[r.randint(-3, 3) for _ in range(2 * N)] for _ in range(c.T)]
    if k < .4: return [[r.choice((0, 0, 1, -1)) for _ in range(2 * N)] for _ in range(c.T)]        # ties dominate
    a = [[r.randint(-2, 2) for _ in range(4)] for _ in range(2)]; o = [r.randint(-4, 4) for _ in range(2)]; cl = r.random() < .4; ctr = [r.choice((.5, 1, 1.5)) for _ in range(3)]; rad = r.choice((1, 2, 3))
    for t in range(c.T):                                                                          # moving lines and rings
        s = []
        for g in range(N):
            p, x = g, []
            for d in c.dims: x.append(p % d); p //= d
            u = round(sum(a[0][i] * x[i] for i in range(3)) + a[0][3] * t + o[0])
            v = round(4 * sum((x[i] - ctr[i]) ** 2 for i in range(3)) - 4 * rad + 2 * t) if cl else round(sum(a[1][i] * x[i] for i in range(3)) + a[1][3] * t + o[1])
            s += [max(-9, min(9, u)), max(-9, min(9, v))]
        out.append(s)
    return out

def cases(ctx, n, base=0, kind=None, par=False):
    r = ctx.rng; out = []
    for i in range(n):
        c = Case(); c.id = base + i; c.kind = kind or "uv"; lay = c.kind == "uv"
        c.dims = [r.randint(2, 3) for _ in range(3)] if lay else [r.randint(3, 5), r.randint(3, 4), r.randint(3, 4)]
        if c.kind == "rv": c.dims = [r.randint(4, 5), r.randint(4, 5), 4]
        r.shuffle(c.dims)
        if par: c.dims[0] = r.randint(4, 6); c.dims[1] = max(2, c.dims[1] - (1 if lay else 0))
        c.lo, c.sz = [0] * 3, list(c.dims)
        if r.random() < .3 or (not lay and r.random() < .5):
            for k in range(3):
                if c.dims[k] > 2: c.lo[k] = r.randint(0, 1); c.sz[k] = r.randint(2 if not par or k else 3, c.dims[k] - c.lo[k])
        c.nth = r.choice((1, 1, 2, 4)); c.backend = 0; c.partial = 0; c.root = 0; c.sched = r.randint(0, 2); c.rep = r.choice((0, 0, 0, 1))
        c.q = r.choice(("1", "1", "0.5", "0.25", "0.015625", "4")) if lay else "1"
        c.T = r.choice((1, 2, 2, 3)) if lay else r.choice((1, 1, 2))
        if c.T == 1: c.sched = r.choice((0, 0, 0, 1))
        if c.T == 1 and lay:
            c.dims = [min(5, d + r.randint(0, 2)) for d in c.dims]; c.sz = [c.dims[k] - c.lo[k] for k in range(3)]
        N = 1
        for d in c.dims: N *= d
        if lay: c.d = pairs(r, c, N)
        elif c.kind == "rv": c.d = [[r.randint(0, 2) for _ in range(N)] for _ in range(c.T)]
        else: c.d = [[r.choice((-2, -1, -1, 0, 1, 1, 2)) for _ in range(3 * N)] for _ in range(c.T)]
        out.append(c)
    return out

def check(ctx):
    ctx.model("MCLine", "MCLine.cfg")
    if not ctx.quick: ctx.model("MCLine", "MCLine6.cfg")
    ctx.model("MCLine", "MCLineNeg.cfg", expect_violation="Polygon is violated")
    exe = ctx.build("line", flags=["-D_GLIBCXX_ASSERTIONS"])
    cs = cases(ctx, 140 if ctx.quick else 2000)
    for i, k in enumerate(("sh", "ldg", "rv")): cs += cases(ctx, 12 if ctx.quick else 160, 100000 * (i + 1), k)
    recs = ctx.run_cases(exe, [c.line() for c in cs], "line")
    ctx.validate("LineTrace", [c.merge(o) for c, o in zip(cs, recs)], "Trace.cfg", name="line")
    for np in (2, 3) if ctx.quick else (2, 3, 4):
        cs = cases(ctx, 18 if ctx.quick else 200, np * 10000, par=True)
        for i, k in enumerate(("sh", "ldg", "rv")): cs += cases(ctx, 4 if ctx.quick else 40, 100000 * (i + 1) + np * 10000, k, par=True)
        for c in cs: c.partial = ctx.rng.randint(0, 1); c.root = ctx.rng.choice((0, 0, np - 1))
        recs = ctx.run_cases(exe, [c.line() for c in cs], "np%d" % np, np=np, chunks=2)
        ctx.validate("LineTrace", [c.merge(o) for c, o in zip(cs, recs)], "Trace.cfg", name="np%d" % np)
    ctx.assumptions += ["field values are small integers times a power of two", "single-process and group runs with whole or partial arrays; CUDA is not available",
                        "a polygon of four or five corners may be filled with overlapping triangles (the library marks its triangulation as unfinished)"]
