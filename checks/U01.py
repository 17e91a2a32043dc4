"""U01: disjoint sets equal the closure of the requested unions (linearizability of recorded histories)."""
import json
from M01 import J

def ops(r, n, k, names):
    out = []
    for _ in range(k): out.append((r.choice(names), r.randrange(n), r.randrange(n)))
    return out
def txt(p): return J(len(p), [J(*o) for o in p])
def final(n, ty):
    if ty.startswith("duf"): f = [("size", 0, 0), ("roots", 0, 0)] + [("find", i, 0) for i in range(n)] + [("roots", 0, 0), ("size", 0, 0)]
    elif ty.startswith("uf"): f = [("size", 0, 0), ("sets", 0, 0)] + [("find", i, 0) for i in range(n)] + [("isroot", i, 0) for i in range(n)]
    else: f = [("find", i, 0) for i in range(n)]
    return f

def check(ctx):
    r = ctx.rng; exe = ctx.build("uf", libs=["-ldl", "-lpthread"])
    ctx.model("MCDuf", "MCDuf.cfg"); ctx.model("MCDuf", "MCDuf5.cfg" if ctx.quick else "MCDuf6.cfg")
    ctx.model("MCDuf", "MCDufNeg.cfg", expect_violation="Partition is violated")
    cs = []
    def case(ty, n, mode, runs, setup, threads, fin=None):
        cs.append(J(len(cs), ty, n, mode, runs, r.randint(1, 10 ** 6), len(threads), txt(setup), [txt(t) for t in threads], txt(fin or final(n, ty))))
    q = ctx.quick
    # one client
    for _ in range(150 if q else 1500):
        ty = r.choice(("duf", "dufg", "uf", "ufs", "simple")); n = r.randint(1, 7); k = r.randint(0, 14)
        if ty[:3] == "duf": case(ty, n, "seq", 1, [], [ops(r, n, k, ("unite", "unite", "unite", "find", "has", "size", "roots", "sync"))])
        elif ty[:2] == "uf":
            setup = [("add", i, 0) for i in r.sample(range(n), n)] + [("add", r.randrange(n), 0)]
            case(ty, n, "seq", 1, setup, [ops(r, n, k, ("unite", "unite", "unite", "unite", "find", "same", "parent", "isroot", "has", "add", "sets"))])
        else: case(ty, n, "seq", 1, [], [ops(r, n, k, ("unite", "unite", "find", "same"))])
    # chains and stars, long paths
    for ty in ("duf", "dufg", "uf", "ufs", "simple"):
        for n in (9, 12):
            for rev in (0, 1):
                setup = [("add", i, 0) for i in range(n)] if ty[:2] == "uf" else []
                prog = [("unite", i, i + 1) for i in range(n - 1)]
                if rev: prog = prog[::-1]
                if r.random() < .5: prog = [(a, c, b) for a, b, c in prog]
                k = r.randrange(n); prog.insert(k, ("find", r.randrange(n), 0)); prog += [("unite", 0, n - 1), ("find", n // 2, 0)]
                case(ty, n, "seq", 1, setup, [prog])
                half = [("unite", i, i + 2 if i + 2 < n else i) for i in range(n)] + [("unite", n - 1, 0)]
                r.shuffle(half)
                case(ty, n, "seq", 1, setup, [half])
    # trees as deep as balancing allows, looked up from the bottom
    for ty in ("duf", "dufg", "uf", "ufs", "simple"):
        for n in (8, 16, 64):
            for v in range(3 if n < 64 else 1):
                setup = [("add", i, 0) for i in range(n)] if ty[:2] == "uf" else []
                prog = []; k = 1
                while k < n:
                    prog += [("unite", i, i + k) if v % 2 == 0 else ("unite", i + k, i) for i in range(0, n, 2 * k)]; k *= 2
                look = r.choice(("find", "same")) if ty[:3] != "duf" else "find"
                prog += [(look, x, r.randrange(n)) for x in (r.sample(range(n), n) if v else range(n - 1, -1, -1))]
                case(ty, n, "seq", 1, setup, [prog])
    # several clients of the thread-safe variant
    names = ("unite", "unite", "unite", "find", "find", "has", "roots")
    for t in range(60 if q else 500):
        ty = r.choice(("duf", "dufg")); n = r.randint(2, 5); nth = r.choice((2, 2, 3))
        setup = ops(r, n, r.randint(0, 3), ("unite", "find"))
        threads = [ops(r, n, r.randint(1, 3 if nth == 2 else 2), names) for _ in range(nth)]
        case(ty, n, r.choice(("dfs", "rnd")), 200 if q else 1500, setup, threads)
    for t in range(20 if q else 200):
        n = r.randint(3, 9); nth = 4
        case("duf", n, "free", 30, ops(r, n, r.randint(0, 3), ("unite", "find")), [ops(r, n, r.randint(2, 6), ("unite", "unite", "find")) for _ in range(nth)])
    out = [json.loads(x) for x in ctx.run_cases(exe, cs, "uf", post=None) if x]
    recs = []; runs = 0
    for x in out:
        runs += x["runs"]; hs = x["h"]
        if len(hs) > (25 if q else 120): hs = hs[:1] + ctx.rng.sample(hs[1:], 24 if q else 119)
        for k, h in enumerate(hs): recs.append(dict(id=x["id"] * 1000 + k, kind=x["kind"], init=x["init"], ev=h))
    ctx.validate("DisjointTrace", recs, "Trace.cfg", name="uf")
    ctx.assumptions += ["elements are added before they are united or looked up (hash-map variant)", "thread schedules: switches at comparisons and lock operations, plus free-running threads"]
    return dict(schedules_run=runs, distinct_histories=sum(len(x["h"]) for x in out))
