"""M04: lattice decomposition tiles the domain; ghosts clamp to it."""
from M01 import J
def cases(ctx):
    r = ctx.rng; out = []; mul = 1 if ctx.quick else 6
    k = 0
    # systematic: all small shapes x process counts, automatic
    for a in range(1, 9):
        for b in range(1, 9):
            ops = []
            for np in range(1, 13):
                out.append(J("part", k, 2, [0, 0], [a, b], 1, "part", np, 0, [0] * 6)); k += 1
    for _ in range(900 * mul):
        nd = r.choice([1, 2, 2, 3, 3, 4])
        st = [r.choice([0, 0, 1, 4, 10]) for _ in range(nd)]
        sz = [r.choice([1, 2, 3, 5, 7, 8, 13, 16, 31]) for _ in range(nd)]
        ops = []
        np = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 18, 24])
        given = [0] * nd
        if r.random() < .7:
            rest = np
            for i in range(nd):
                if r.random() < .6:
                    f = r.choice([x for x in range(1, rest + 1) if rest % x == 0]); given[i] = f; rest //= f
            if all(given) and r.random() < .8:
                given[r.randrange(nd)] *= rest
        lo = [r.choice([0, 0, 1, 2, 3]) for _ in range(nd)]; hi = [r.choice([0, 1, 2, 4]) for _ in range(nd)]
        ops.append(J("part", np, r.choice([0, 1, 2, 3, 3]), given, lo, hi))
        if r.random() < .15:   # re-partition the same object
            ops.append(J("part", r.choice([1, 2, 4, 6]), 3, [0] * nd, hi, lo))
        for _ in range(2):
            bs = [s + r.randrange(z) for s, z in zip(st, sz)]
            bz = [r.randint(1, s + z - b) for s, z, b in zip(st, sz, bs)]
            ops.append(J("ghost", bs, bz, lo, hi))
            ops.append(J("contains", [max(0, s + r.randint(-2, z + 1)) for s, z in zip(st, sz)]))
        out.append(J("part", k, nd, st, sz, len(ops), " ".join(ops))); k += 1
    return out
def check(ctx):
    ctx.model("MCPartition", "MCPartition.cfg")
    exe = ctx.build("mesh")
    ctx.validate("PartTrace", ctx.run_cases(exe, cases(ctx), "part"), "Trace.cfg")
    ctx.assumptions += ["a partition is demanded only when every undecided dimension could take all remaining factors; in other cases the partitioner may decline by returning no block"]
