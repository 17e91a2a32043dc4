"""M01: the grid mesh against the definition of the Freudenthal subdivision."""
def boxes(ctx):
    r = ctx.rng
    out = []
    big = ctx.quick is False
    for nd in (2, 3, 4):
        lim = {2: 5, 3: 4, 4: 3 if big else 2}[nd]
        n = {2: 14, 3: 10, 4: 5}[nd] * (3 if big else 1)
        for _ in range(n):
            lb = [r.choice([0, 0, 1, 2, 5, -3]) for _ in range(nd)]
            ub = [l + r.randint(0 if r.random() < .2 else 1, lim - 1) for l in lb]
            out.append((nd, lb, ub))
    return out

def sub(r, lb, ub):
    st = [r.randint(l, u) for l, u in zip(lb, ub)]
    sz = [r.randint(1, u - s + 1) for s, u in zip(st, ub)]
    return st, sz

def J(*a):
    o = []
    for x in a:
        if isinstance(x, (list, tuple)): o += [str(y) for y in x]
        else: o.append(str(x))
    return " ".join(o)

def cases(ctx):
    r = ctx.rng; out = []
    for i, (nd, lb, ub) in enumerate(boxes(ctx)):
        sz = [u - l + 1 for l, u in zip(lb, ub)]
        ops = []
        for d in range(nd + 1):
            ops.append(J("visit", d, 0, 3, r.choice([1, 2, 3]), lb, sz))
            t = r.randint(lb[-1], ub[-1])
            for scope in (1, 2):
                # time sub-box as the trackers iterate it
                st2, sz2 = list(lb), list(sz); st2[-1] = t; sz2[-1] = 1
                if nd < 4: ops.append(J("visit", d, scope, scope, r.choice([1, 4]), st2, sz2))
                s, z = sub(r, lb, ub)
                if min(s) >= 0 or True:
                    ops.append(J("visit", d, scope, 0, r.choice([1, 2]), s, z))
            s, z = sub(r, lb, ub)
            ops.append(J("visit", d, 0, 0, 1, s, z))
        out.append(J("mesh", i, nd, lb, ub, len(ops), " ".join(ops)))
    # relations: every unit simplex of every dimension (translation covered by random corners)
    k = len(out)
    for nd in (2, 3, 4):
        for rep in range(3):
            lb = [r.choice([0, 3, -2]) for _ in range(nd)]; ub = [l + 2 for l in lb]
            ops = []
            for d in range(nd + 1):
                c = [r.randint(l, u) for l, u in zip(lb, ub)]
                ops.append(J("rel", d, c, [1] * nd))
            out.append(J("mesh", k, nd, lb, ub, len(ops), " ".join(ops))); k += 1
    return out

def check(ctx):
    ctx.model("MCFreudenthal", "MCFreudenthal.cfg")
    exe = ctx.build("mesh")
    recs = ctx.run_cases(exe, cases(ctx), "mesh")
    ctx.validate("MeshTrace", recs, "Trace.cfg")
    ctx.assumptions += ["element_for visits corner x type; elements reaching beyond the mesh bounds are filtered by valid(), as every tracker does"]
