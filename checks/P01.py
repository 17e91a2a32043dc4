"""P01: process-group exchanges conserve data."""
from concurrent.futures import ThreadPoolExecutor
from M01 import J

def items(r, keys, vals=True, n=None):
    ks = [k for k in keys]
    r.shuffle(ks)
    m = r.choice((0, 0, 1, 2, 3, 6, len(ks))) if n is None else n
    out = []
    for k in ks[:m]: out.append((k, [r.randint(-50, 50) for _ in range(r.choice((0, 1, 1, 3, 40)))]))
    return out

def text(its): return J(len(its), [J(k, len(v), v) for k, v in its])

def op(r, np):
    o = r.choice(("gather", "gather", "gathera", "allgather", "bcast", "scatter", "all2all", "redist", "redist"))
    ty = {"bcast": ("map", "set", "vec", "json"), "all2all": ("map", "set"), "redist": ("map",)}.get(o, ("map", "set", "vec", "pts"))
    ty = r.choice(ty); root = r.randrange(np)
    a = [o, ty, root]
    style = r.random()     # all random / one process dominates / all but one empty
    boss = r.randrange(np)
    def size(p):
        if style < .2: return 0 if p != boss else None
        if style < .3: return 12 if p == boss else None
        return None
    cells = np if o in ("scatter", "all2all") else 1
    if o == "redist":
        groups = r.randint(1, 6); nv = 0; its = {p: [] for p in range(np)}
        for _ in range(r.choice((0, 1, 4, 12, 40))):
            p = r.randrange(np) if style > .2 else boss
            nv += 1; its[p].append((r.choice([r.randint(0, groups), r.randint(0, 1000)]), [nv, r.randint(-9, 9)]))
        for p in range(np): a.append(text(its[p]))
    else:
        # shared keys carry the same value, as gathered maps require
        shared = items(r, range(0, 5), n=5)
        for p in range(np):
            for c in range(cells):
                base = 100 * (p * cells + c) + 10
                its = items(r, range(base, base + 12), n=size(p))
                if ty in ("map", "set") and r.random() < .5: its += r.sample(shared, r.randint(0, 5))
                if ty in ("vec", "pts", "json") and its and r.random() < .3: its.append(its[0])
                if ty == "pts": its = [(k, v[:3]) for k, v in its]
                a.append(text(its))
    return J(*a)

def check(ctx):
    r = ctx.rng; exe = ctx.build("coll")
    n = 60 if ctx.quick else 500
    def go(np):
        cs = []
        rr = __import__("random").Random("%s/%d" % (ctx.seed, np))
        for k in range(n):
            ops = [op(rr, np) for _ in range(8)]
            cs.append(J(1000 * np + k, len(ops), " ".join(ops)))
        return ctx.run_cases(exe, cs, "coll%d" % np, np=np, chunks=1)
    recs = []
    with ThreadPoolExecutor(3) as p:
        for x in p.map(go, (1, 2, 3, 4, 5) if ctx.quick else (1, 2, 3, 4, 5, 6, 7, 8)): recs += x
    ctx.validate("CollTrace", recs, "Trace.cfg", name="coll")
    ctx.assumptions += ["gathered maps agree on shared keys"]
