"""G01: graph algorithms behind the tracking (components, curves, breadth first, shortest paths) against Graph."""
import itertools
from M01 import J

def ops(r, ids, q, light):
    o = []
    for ov in (range(7) if not light else r.sample(range(7), 3)): o.append(J("cc", ov))
    o.append(J("lin", 0)); o.append(J("lin", 1))
    for s in (ids if not light else r.sample(ids, 2)): o.append(J("bfs", s, r.randint(0, 1)))
    for _ in range(3 if light else 5): o.append(J("dij", r.choice(ids), r.choice(ids), r.randint(0, 1)))
    def sets():
        k = r.randint(0, 4); return [[x for x in ids if r.random() < .3] for _ in range(k)]
    a, b = sets(), sets()
    o.append(J("ov", len(a), len(b), " ".join(J(len(x), " ".join(map(str, x))) for x in a + b), r.randint(0, 1)))
    return o

def case(r, i, ids, edges, q, light):
    o = ops(r, ids, q, light)
    return J(i, len(ids), " ".join(map(str, ids)), len(edges), " ".join(J(a, b, c) for a, b, c in edges), len(q), " ".join(map(str, q)), len(o), " ".join(o))

def cases(ctx):
    r = ctx.rng; out = []
    for n in range(2, 5 if ctx.quick else 6):           # every graph, every order of ids, random subset
        pairs = list(itertools.combinations(range(n), 2))
        for m in range(1 << len(pairs)):
            ids = r.sample(range(1, 40), n)
            ed = [(ids[a], ids[b], r.randint(0, 3)) for k, (a, b) in enumerate(pairs) if m >> k & 1]
            q = ids if r.random() < .5 else [x for x in ids if r.random() < .7]
            out.append(case(r, len(out), ids, ed, q, True))
    for _ in range(140 if ctx.quick else 1200):
        kind = r.choice(["gnp", "sparse", "path", "cycle", "tree", "theta", "loops"])
        n = r.randint(4, 14)
        ids = r.sample(range(0, 60), n)
        E = set()
        if kind in ("path", "cycle", "theta", "loops"):
            p = ids[:]; r.shuffle(p); cut = r.randint(2, n)
            for c in (p[:cut], p[cut:]):
                for a, b in zip(c, c[1:]): E.add((a, b))
                if len(c) > 2 and kind in ("cycle", "theta", "loops"): E.add((c[-1], c[0]))
            if kind == "theta": E.add(tuple(r.sample(ids, 2)))
        elif kind == "tree":
            for k in range(1, n): E.add((ids[k], ids[r.randrange(k)]))
        else:
            pr = .35 if kind == "gnp" else 1.4 / n
            for a, b in itertools.combinations(ids, 2):
                if r.random() < pr: E.add((a, b))
        E = {(min(a, b), max(a, b)) for a, b in E}
        if kind == "loops":                                # a node that lists itself as neighbour, as the trackers' neighbour functions do
            for x in ids:
                if r.random() < .5: E.add((x, x))
        wm = r.choice([0, 1, 9, 50])
        ed = [(a, b, r.randint(0, wm)) for a, b in sorted(E)]
        r.shuffle(ed)
        q = ids if r.random() < .5 else [x for x in ids if r.random() < .8]
        out.append(case(r, len(out), ids, ed, q, False))
    return out

def check(ctx):
    ctx.model("MCGraph", "MCGraphCurve.cfg")
    ctx.model("MCGraph", "MCGraphNeg.cfg", expect_violation="CurveInv is violated")
    ctx.model("MCGraph", "MCGraphDijkstra.cfg")
    ctx.model("MCGraph", "MCGraphBfs.cfg")
    exe = ctx.build("graph")
    recs = ctx.run_cases(exe, cases(ctx), "graph")
    ctx.validate("GraphTrace", recs, "Trace.cfg")
    ctx.assumptions += ["neighbour relations are symmetric", "path weights are not negative", "linear pieces of two nodes may be flagged as loops"]
