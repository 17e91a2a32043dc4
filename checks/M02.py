"""M02: identifiers of simplices and lattice points are bijections and round-trip."""
from M01 import J, sub
def cases(ctx):
    r = ctx.rng; out = []; k = 0
    mul = 1 if ctx.quick else 4
    # small meshes: every element of every dimension, several sub-boxes and scopes sharing one history
    for nd in (2, 3, 4):
        for _ in range({2: 10, 3: 8, 4: 4}[nd] * mul):
            lim = {2: 6, 3: 4, 4: 2}[nd]
            lb = [r.choice([0, 0, 1, 7, -4]) for _ in range(nd)]
            ub = [l + r.randint(0 if r.random() < .15 else 1, lim - 1) for l in lb]
            sz = [u - l + 1 for l, u in zip(lb, ub)]
            ops = []
            for d in range(nd + 1):
                ops.append(J("ids", d, 0, lb, sz))
                for scope in (1, 2):
                    s, z = sub(r, lb, ub)
                    if not (scope == 1 and d == nd) and not (scope == 2 and d == 0): ops.append(J("ids", d, scope, s, z))
                ops.append(J("order", d, lb, sz))
            out.append(J("mesh", k, nd, lb, ub, len(ops), " ".join(ops))); k += 1
    # realistic large meshes: identifiers exceed 32 bits; sub-boxes at corners and random places
    for nd in (3, 4):
        for _ in range(3 * mul):
            lb = [r.choice([0, 1, -5]) for _ in range(nd)]
            big = {3: [1500, 4000], 4: [300, 700]}[nd]
            ub = [l + r.randint(*big) for l in lb]
            ops = []
            for d in ((1, 2, 3) if nd == 3 else (3,)):
                for j in range(4):
                    st = [r.choice([l, u - 1, r.randint(l, u - 1)]) for l, u in zip(lb, ub)]
                    z = [r.randint(1, 2) for _ in st] if nd == 3 else [1] * nd
                    ops.append(J("ids", d, 0, st, z))
                ops.append(J("ids", d, 0, lb, [1] * nd))
                # places whose identifiers would meet if reduced modulo 2^32 or 2^31
                n = [u - l + 1 for l, u in zip(lb, ub)]
                prod = [1]
                for x in n: prod.append(prod[-1] * x)
                for m in (1 << 32, 1 << 31):
                    if prod[-1] > m:
                        i = m; c = []
                        for q in reversed(range(nd)):
                            c.append(i // prod[q]); i %= prod[q]
                        c = [a + b for a, b in zip(reversed(c), lb)]
                        if all(l <= x < u for l, x, u in zip(lb, c, ub)): ops.append(J("ids", d, 0, c, [1] * nd))
            out.append(J("mesh", k, nd, lb, ub, len(ops), " ".join(ops))); k += 1
    for nd in (1, 2, 3, 4):
        for _ in range(6 * mul):
            st = [r.choice([0, 0, 3, -2]) for _ in range(nd)]
            sz = [r.randint(1, {1: 20, 2: 8, 3: 5, 4: 3}[nd]) for _ in range(nd)]
            out.append(J("lattice", k, nd, st, sz, 1)); k += 1
        for _ in range(3):
            st = [r.choice([0, 3, -2]) for _ in range(nd)]; sz = [r.randint(1000, 30000) for _ in range(nd)]
            pts = [[r.choice([s, s + z - 1, r.randint(s, s + z - 1)]) for s, z in zip(st, sz)] for _ in range(30)]
            out.append(J("lattice", k, nd, st, sz, 0, len(pts), *pts)); k += 1
    return out
def check(ctx):
    exe = ctx.build("mesh")
    recs = ctx.run_cases(exe, cases(ctx), "ids")
    ctx.validate("MeshTrace", recs, "Trace.cfg")
    ctx.assumptions += ["identifiers of simplices reaching beyond the mesh bounds are unconstrained"]
