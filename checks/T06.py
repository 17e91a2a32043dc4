"""T06: types follow the Jacobian; the type filter selects exactly."""
import cpcases as K, cpcheck
ONLY = ["type", "filtered-type", "missing", "spurious", "x", "t", "scalar", "timestep", "ordinal"]

def cases(ctx, n):
    r = ctx.rng; out = []
    for i in range(n):
        m = r.choice((2, 2, 2, "tri", "tri", 3, 3))
        kw = K.random_shape(r, m)
        jac = 0 if r.random() < .15 else 1
        der = r.choice((0, 0, 0, 1, 2)) if m == 2 else 0
        deg = int(m != 3 and r.random() < .2)
        c = K.Case(i, deg=deg, only=ONLY, sca=r.randint(0, 1) if not der else 0, jac=jac if not der else 0, sym=r.randint(0, 1), der=der,
                   tf=r.choice((-1, -1, 1, 2, 4, 8, 16, 32, 64)), **kw)
        nt = r.choice((1, 2, 3)) if m != 3 else 2
        K.fill(r, c, nt); K.schedule(r, c, nt, check=False)
        c.op("C"); out.append(c)
    return out

def check(ctx):
    ctx.model("MCDegree", "MCDegree.cfg"); ctx.model("MCDegree", "MCDegreeNeg.cfg", expect_violation="Diagonal is violated")
    cpcheck.run(ctx, cases(ctx, 900 if ctx.quick else 9000), name="types")
    ctx.assumptions += ["a type is not judged where the Jacobian is exactly on the border between two types (all neighbouring types accepted)",
                        "general (non-symmetric) 3D Jacobians: the code reports unknown; only that is checked"]
