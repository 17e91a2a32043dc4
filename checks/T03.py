"""T03: results do not depend on threads, backends, processes, root or partial input."""
import copy, json
from concurrent.futures import ThreadPoolExecutor
import cpcases as K, cpcheck
ONLY = []

def scenario(r, i, big=False):
    m = r.choice((2, 2, 2, 3, "tri"))
    if big: m = r.choice((2, 2, 3))
    if m == "tri": kw = K.random_shape(r, "tri")
    elif m == 2: kw = dict(dims=[r.randint(4, 7), r.randint(4, 7)]) if not big else dict(dims=[28, 24])
    else: kw = dict(dims=[4, r.choice((2, 3, 4)), r.choice((2, 4))]) if not big else dict(dims=[8, 8, 7])
    if m == 2 and not big and r.random() < .4:
        # a domain smaller than the array
        kw["sz"] = list(kw["dims"])
        kw["lo"] = [r.randint(0, 2) for d in kw["dims"]]
        kw["dims"] = [d + l + r.randint(0, 1) for d, l in zip(kw["sz"], kw["lo"])]
    if m != "tri" and r.random() < .5: K.coords_mode(r, kw)
    stream = 1 if (not big and r.random() < .3) else 0
    c = K.Case(i, t0=r.choice((0, 0, 2)), stream=stream, sca=r.randint(0, 1), jac=r.randint(0, 1), sym=r.randint(0, 1), only=ONLY, **kw)
    if m == 2 and r.random() < .3:
        c = K.Case(i, t0=0, stream=stream, sca=0, der=r.choice((1, 2)), only=ONLY, **kw)
    nt = 3 if m == 2 else 2
    K.fill(r, c, nt, *((-2, 2) if c.der == 1 else ()))
    K.schedule(r, c, nt, check=bool(stream), lag=1)
    if stream: c.op("C").op("F").op("T")
    else: c.op("C").op("F").op("T")
    return c

def variants(r, c, np, n):
    """n configurations of case c on np processes"""
    out = []
    for _ in range(n):
        v = copy.copy(c)
        v.nth = r.choice((1, 1, 2, 3, 8)) if np > 1 else r.choice((1, 2, 3, 5, 8, 16))
        v.backend = r.choice((0, 0, 6))
        v.root = r.randrange(np)
        v.partial = int(np > 1 and c.mesh != "tri" and r.random() < .5)
        v.np = np
        out.append(v)
    return out

def check(ctx):
    r = ctx.rng
    exe = ctx.build("cp")
    n = 48 if ctx.quick else 700
    base = [scenario(r, i) for i in range(n)]
    big = [scenario(r, n + i, True) for i in range(6 if ctx.quick else 40)]
    runs = {}                                    # np -> [variant]
    for np in (1, 2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5, 6):
        runs[np] = []
        for c in base:
            if np > 4 and (c.mesh == "tri" or c.nd == 3 or np == 5 and max(c.sz) < 5): continue
            runs[np] += variants(r, c, np, 2 if np == 1 or not ctx.quick else 1)
    reps = 6 if ctx.quick else 20
    for c in big:
        for k in range(reps):
            v = copy.copy(c); v.np = 1; v.nth = 1 if k == 0 else r.choice((4, 8, 16)); v.backend = r.choice((0, 0, 6)); runs[1].append(v)
        for np in (2, 4): runs[np] += variants(r, c, np, 1)
    def go(np):
        vs = runs[np]
        out = ctx.run_cases(exe, [v.line() for v in vs], "np%d" % np, np=np if np > 1 else None, chunks=2 if np > 1 else 3)
        return [(v, o) for v, o in zip(vs, out) if o is not None]
    got = []
    with ThreadPoolExecutor(4) as p:
        for x in p.map(go, sorted(runs)): got += x
    # every configuration against the tracker specification
    recs = []
    for v, o in got:
        if v.i >= n or v.der == 2: continue     # (second derivatives exceed TLC's integers)
        m = v.merge(o); m["kind"] += "-np%d%s" % (v.np, "p" if v.partial else "")
        m["cfg"] = [v.np, v.nth, v.backend, v.root, v.partial]
        recs.append(m)
    if ctx.quick: recs = [x for k, x in enumerate(recs) if k % 2 == 0 or x["cfg"][0] > 1]
    ctx.validate("CPTrace", recs, "Trace.cfg", name="config")
    # all configurations of a scenario against each other
    groups = {}
    for v, o in got:
        e = json.loads(o)["ev"]
        P = [x for x in e if x["op"] == "C"][-1]["p"]; T = [x for x in e if x["op"] == "T"][-1]["tr"]
        groups.setdefault(v.i, []).append(dict(op="run", cfg=[v.np, v.nth, v.backend, v.root, v.partial], p=P, tr=T))
    ctx.validate("SameTrace", [dict(id=i, kind="same", ev=g) for i, g in groups.items()], "Trace.cfg", name="same")
    return dict(configurations=len(got), scenarios=len(groups))
