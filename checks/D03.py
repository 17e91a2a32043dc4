"""D03: derived fields (differences, products, convolutions, mesh gradients and smoothing) against Derived."""
from M01 import J

def ints(r, n, m): k = r.random(); return J(*[r.randint(-m, m) if k < .8 or r.random() < .3 else 0 for _ in range(n)])

def grid(r):
    op = r.choice("grad2 grad2 jac2 jac2 jac2s grad2t jac2t grad3 grad3t jac3 jac3t vort cross jv jtv conv conv flat flat".split()); T = r.choice("df")
    if op in ("grad2", "jac2", "jac2s"):
        s = [r.randint(1, 6), r.randint(1, 6)]; nc = 1 if op == "grad2" else 2
        W = [0, 0] if r.random() < .5 else [x + r.randint(0, 5) for x in s]
        return J(T, op, nc, 2, *s, ints(r, nc * s[0] * s[1], 9), *W)
    if op in ("grad2t", "jac2t"):
        nc = 1 if op == "grad2t" else 2; s = [r.randint(2, 7), r.randint(2, 7), r.randint(1, 3)]
        return J(T, op, nc, 3, *s, ints(r, nc * s[0] * s[1] * s[2], 9))
    if op in ("grad3", "jac3", "vort", "cross", "jv", "jtv"):
        nc = 1 if op == "grad3" else 3; s = [r.randint(3, 6) for _ in range(3)]; n = nc * s[0] * s[1] * s[2]
        return J(T, op, nc, 3, *s, ints(r, n, 9), *([r.choice([1, 2, 2])] if op == "jac3" else [ints(r, n, 9)] if op == "cross" else []))
    if op in ("grad3t", "jac3t"):
        nc = 1 if op == "grad3t" else 3; s = [r.randint(4, 6) for _ in range(3)] + [r.randint(1, 2)]; n = nc * s[0] * s[1] * s[2] * s[3]
        return J(T, op, nc, 4, *s, ints(r, n, 9))
    nd = r.choice([2, 2, 3])
    if op == "conv":
        ks = [r.randint(1, 4 if nd == 2 else 3) for _ in range(nd)]; p = r.choice([0, 0, 1, 2]); s = [r.randint(max(k, 1), 6 if nd == 2 else 4) for k in ks]; kn = sn = 1
        for k in ks: kn *= k
        for x in s: sn *= x
        return J(T, op, 1, nd, *s, ints(r, sn, 9), *ks, p, ints(r, kn, 5))
    pre = r.choice([0, 1, 1, 2]); nc = {0: 1, 1: r.randint(1, 3), 2: r.choice([2, 4])}[pre]; k = r.choice([1, 3, 3, 5]) if nd == 2 else r.choice([1, 3]); p = r.choice([0, k // 2, k // 2]); s = [r.randint(max(k, 1), 6 if nd == 2 else 4) for _ in range(nd)]; sn = nc
    for x in s: sn *= x
    return J("d", op, nc, nd, *s, ints(r, sn, 5), pre, k, p)

def unimod(r, d):
    while True:
        M = [[r.randint(-2, 2) for _ in range(d)] for _ in range(d)]
        D = M[0][0] * M[1][1] - M[0][1] * M[1][0] if d == 2 else sum(M[0][i] * (M[1][(i + 1) % 3] * M[2][(i + 2) % 3] - M[1][(i + 2) % 3] * M[2][(i + 1) % 3]) for i in range(3))
        if D in (1, -1): return M

def simp(r):
    d = r.choice([2, 3]); M = unimod(r, d); o = [r.randint(-5, 5) for _ in range(d)]; X = [o] + [[a + b for a, b in zip(o, m)] for m in M]; r.shuffle(X)
    k = r.choice(["grad", "jac"]) if d == 2 else "jac"; n = d if k == "jac" else 2
    return J("s", k, d, *[J(*x) for x in X], n, *[J(*[r.randint(-6, 6) for _ in range(d + 1)]) for _ in range(n)])

def mesh(r):
    while True:
        nx, ny = r.randint(1, 3), r.randint(1, 3); M = unimod(r, 2); o = [r.randint(-4, 4), r.randint(-4, 4)]
        V = [(M[0][0] * i + M[0][1] * j + o[0], M[1][0] * i + M[1][1] * j + o[1]) for j in range(ny + 1) for i in range(nx + 1)]; g = lambda i, j: j * (nx + 1) + i; T = []
        for j in range(ny):
            for i in range(nx):
                a, b, c, d = g(i, j), g(i + 1, j), g(i + 1, j + 1), g(i, j + 1)
                T += [(a, b, c), (a, c, d)] if r.random() < .6 else [(a, b, d), (b, c, d)]
        if r.random() < .5: T = [t for t in T if r.random() < .8] or T[:1]
        used = sorted({v for t in T for v in t}); pr = used[:]; r.shuffle(pr); m = {v: i for i, v in enumerate(pr)}; W = [V[v] for v in pr]
        T = [r.sample([m[v] for v in t], 3) for t in T]; r.shuffle(T)
        if max(sum(v in t for t in T) for v in range(len(W))) <= 6: break
    n = len(W)
    return J("mesh", r.choice([1, 2, 3, 4]), n, *[J(*p) for p in W], len(T), *[J(*t) for t in T], ints(r, n, 6), ints(r, 2 * n, 6), r.randrange(10 ** 6))

def cases(ctx):
    r = ctx.rng
    return [J(i, mesh(r) if i % 4 == 0 else J("grid", 6, *[simp(r) if r.random() < .2 else grid(r) for _ in range(6)])) for i in range(500 if ctx.quick else 6000)]

def check(ctx):
    ctx.model("MCDerived", "MCDerived.cfg" if ctx.quick else "MCDerived2.cfg")
    ctx.model("MCDerived", "MCDerivedNeg.cfg", expect_violation="Laws is violated")
    exe = ctx.build("deriv", flags=["-D_GLIBCXX_ASSERTIONS"])
    recs = ctx.run_cases(exe, cases(ctx), "deriv")
    ctx.validate("DerivedTrace", recs, "Trace.cfg")
    ctx.assumptions += ["integer fields; triangles and simplices of unit volume, so every derivative is a fraction with a known denominator", "kernel weights given as integers; of built kernels only members and the order of weights are decided (the exponential is a real function)", "at most six triangles per vertex, no vertex without triangles"]
