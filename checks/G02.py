"""G02: connected regions of thresholded images, their tracking graph, labels and events against Region."""
from M01 import J
import vlib

def image(r, nx, ny):
    k = r.random()
    if nx * ny > 12 and r.random() < .4: return maze(r, nx, ny)
    if k < .3: return [r.randint(0, 1) for _ in range(nx * ny)]
    if k < .45: return [(x + y) % 2 for y in range(ny) for x in range(nx)]
    if k < .6:                                     # combs and spirals: many provisional labels united late
        return [1 if (x % 2 == 0 or y == ny - 1) else 0 for y in range(ny) for x in range(nx)]
    if k < .75: return [1 if (y % 2 == 0 or x == (0 if y % 4 == 1 else nx - 1)) else 0 for y in range(ny) for x in range(nx)]
    p = r.choice([.3, .45, .6, .8])
    return [1 if r.random() < p else 0 for _ in range(nx * ny)]

def maze(r, nx, ny):
    """corridors of a spanning tree, a few walls opened: regions whose provisional labels meet late and often"""
    im = [[0] * nx for _ in range(ny)]; st = [(2 * r.randrange((nx + 1) // 2), 2 * r.randrange((ny + 1) // 2))]; im[st[0][1]][st[0][0]] = 1
    while st:
        x, y = r.choice(st) if r.random() < .4 else st[-1]
        nb = [(dx, dy) for dx, dy in ((2, 0), (-2, 0), (0, 2), (0, -2)) if 0 <= x + dx < nx and 0 <= y + dy < ny and not im[y + dy][x + dx]]
        if not nb: st.remove((x, y)); continue
        dx, dy = r.choice(nb); im[y + dy // 2][x + dx // 2] = im[y + dy][x + dx] = 1; st.append((x + dx, y + dy))
    inv = r.random() < .3; f = r.choice([0, 0, .03, .08])
    return [int((v ^ inv) ^ (r.random() < f)) for row in im for v in row]

def tg(r):
    T = r.randint(2, 5); per = {t: r.randint(0 if r.random() < .3 else 1, 4) for t in range(T)}
    ts = [t for t in range(T) if per[t]]; o = []
    ops = [J("node", t, l) for t in ts for l in range(1, per[t] + 1)]
    p = r.choice([.15, .3, .6])
    ops += [J("edge", t, a, t + 1, b) for t in ts if t + 1 in ts for a in range(1, per[t] + 1) for b in range(1, per[t + 1] + 1) if r.random() < p]
    ops += r.sample(ops, len(ops) // 4); r.shuffle(ops)
    seen = set()
    for x in ops:
        o.append(x); f = list(map(int, x.split()[1:])); seen.add(f[0]); seen |= {f[2]} if len(f) == 4 else set()
        if r.random() < .12: o.append("relabel"); o.append("dump")
        pairs = [(a, b) for a in seen for b in seen if b == a + 1]
        if pairs and r.random() < .12: o += [J("detect", 2, *r.choice(pairs)), "dump"]
        if r.random() < .06: o += ["detect 0", "dump"]
    o += ["relabel", "detect 0", "dump"]
    if r.random() < .5: o += ["relabel", "detect 0", "dump"]
    return J("tg", 1, 1, len(o), T + 1, 5, " ".join(o))

def cases(ctx):
    r = ctx.rng; out = []
    sizes = [(1, 1), (1, 4), (4, 1), (2, 2), (3, 2), (2, 3), (3, 3)] + ([] if ctx.quick else [(4, 3), (3, 4)])
    for nx, ny in sizes:
        for m in range(1 << (nx * ny)):
            if nx * ny >= 12 and m % 3: continue
            out.append(J("hk", nx, ny, m & 1, " ".join(str(m >> i & 1) for i in range(nx * ny))))
    for _ in range(160 if ctx.quick else 800):
        nx, ny = r.randint(1, 11), r.randint(1, 9); out.append(J("hk", nx, ny, r.randint(0, 1), " ".join(map(str, image(r, nx, ny)))))
    for _ in range(150 if ctx.quick else 1200):
        nx, ny, ns = r.randint(1, 6), r.randint(1, 5), r.randint(1, 5); kind = r.random(); mode = r.randint(0, 3); thr = r.randint(-1, 2); fr = []
        base = image(r, nx, ny)
        for t in range(ns):
            if kind < .3: f = [r.randint(-2, 3) for _ in range(nx * ny)]
            elif kind < .4 and t == 1: f = [-9 if mode < 2 else 9] * (nx * ny)
            else:                                    # slowly changing: mostly continuing regions with some merges and splits
                f = [x ^ (r.random() < .12) for x in base]; base = f
                f = [thr + (r.randint(0, 2) + (mode in (1, 3)) if x else -(r.randint(0, 2) + (mode in (0, 2)))) * (1 if mode < 2 else -1) for x in f]
            fr.append(" ".join(map(str, f)))
        out.append(J("track", nx, ny, r.randint(0, 2), ns, thr, mode, " ".join(fr)))
    for _ in range(120 if ctx.quick else 1000): out.append(tg(r))
    return [J(i, x) for i, x in enumerate(out)]

def check(ctx):
    ctx.model("MCHoshen", "MCHoshen.cfg" if ctx.quick else "MCHoshen5.cfg")
    ctx.model("MCHoshen", "MCHoshenNeg.cfg", expect_violation="Fits is violated")
    ctx.model("MCRegion", "MCRegion.cfg" if ctx.quick else "MCRegion6.cfg")
    ctx.model("MCRegion", "MCRegionNeg.cfg", expect_violation="Nodes is violated")
    exe = ctx.build("region", flags=["-D_GLIBCXX_ASSERTIONS"])
    recs = ctx.run_cases(exe, cases(ctx), "region")
    ctx.validate("RegionTrace", recs, "Trace.cfg")
    ctx.assumptions += ["a snapshot is pushed and the timestep advanced in turn", "two-dimensional images (labelling of other dimensions is not implemented)", "events of an interval are asked for timesteps that exist"]
