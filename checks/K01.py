"""K01: nearest points and point location against PointQuery."""
from M01 import J
from math import gcd

def kd(r):
    d = r.choice([1, 2, 2, 3, 3, 4]); n = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 13, 20, 33, 50]); R = r.choice([1, 2, 4, 10, 100, 3000]); k = r.random()
    pts = [[r.randint(-R, R) for _ in range(d)] for _ in range(n)]
    if k < .15: pts = [list(pts[r.randrange(n)]) for _ in range(n)]                       # many duplicates
    elif k < .3: ax = r.randrange(d); c = r.randint(-R, R); pts = [[c if a == ax else v for a, v in enumerate(p)] for p in pts]   # a plane: ties in one axis
    elif k < .4: pts = [[p[0]] * d for p in pts]
    elif k < .5: pts.sort()
    q = []
    for _ in range(14):
        p = list(r.choice(pts)); m = r.random()
        if m < .5: p = [r.randint(-R - 2, R + 2) for _ in range(d)]
        elif m < .8: s = r.choice(pts); p = [(a + b) // 2 for a, b in zip(p, s)]
        q.append(p)
    return J("kd", d, n, r.choice([1, 2, 16]), r.choice([0, 0, d, d + 1, d + 3]), " ".join(J(*p) for p in pts), len(q), " ".join(J(*p) for p in q))

def area(a, b, c): return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])

def mesh(r):
    nx, ny = r.randint(1, 4), r.randint(1, 4); s = r.choice([1, 2, 3, 6, 12, 20])
    xs = sorted(r.sample(range(-6 * s, 6 * s + 1), nx + 1)); ys = sorted(r.sample(range(-6 * s, 6 * s + 1), ny + 1)); sh = r.choice([0, 0, 1, -1, 2])
    V = [(x + sh * y, y) for y in ys for x in xs]; T = []; g = lambda i, j: j * (nx + 1) + i
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = g(i, j), g(i + 1, j), g(i + 1, j + 1), g(i, j + 1)
            T += [(a, b, c), (a, c, d)] if r.random() < .5 else [(a, b, d), (b, c, d)]
    for _ in range(r.choice([0, 1, 3])):                       # a vertex put into a triangle, away from the existing vertices
        t = r.choice(T); P = [V[i] for i in t]; x = tuple(sum(p[k] for p in P) // 3 for k in (0, 1))
        A = [area(x, P[1], P[2]), area(P[0], x, P[2]), area(P[0], P[1], x)]; D = area(*P)
        if all(v * D > 0 for v in A): T.remove(t); V.append(x); n = len(V) - 1; T += [(n, t[1], t[2]), (t[0], n, t[2]), (t[0], t[1], n)]
    if r.random() < .5: T = [t for t in T if r.random() < .75] or T[:1]            # holes, pieces, concave borders
    used = sorted({v for t in T for v in t}); pr = used[:]; r.shuffle(pr); m = {v: i for i, v in enumerate(pr)}; W = [V[v] for v in pr]
    T = [tuple(m[v] for v in t) for t in T]; r.shuffle(T); T = [tuple(r.sample(t, 3)) for t in T]
    q = []
    for _ in range(26):
        k = r.random(); t = [W[i] for i in r.choice(T)]
        if k < .25: x = (r.randint(min(p[0] for p in W) - 2, max(p[0] for p in W) + 2), r.randint(min(p[1] for p in W) - 2, max(p[1] for p in W) + 2))
        elif k < .4: x = r.choice(W)
        elif k < .8:                                           # a lattice point on an edge
            a, b = t[0], t[1]; d = gcd(abs(a[0] - b[0]), abs(a[1] - b[1])); i = r.randint(0, d); x = (a[0] + (b[0] - a[0]) // d * i, a[1] + (b[1] - a[1]) // d * i)
        else: x = tuple(sum(p[k] for p in t) // 3 for k in (0, 1))
        q.append(x)
    nc = r.choice([0, 0, 1, 2, 3])
    return J("mesh", r.choice([1, 1, 4, 64]), len(W), " ".join(J(*p) for p in W), len(T), " ".join(J(*t) for t in T), nc, J(*[r.randint(-9, 9) for _ in range(len(W) * max(1, nc))]), len(q), " ".join(J(*p) for p in q))

def cases(ctx):
    r = ctx.rng
    return [J(i, kd(r) if i % 2 else mesh(r)) for i in range(700 if ctx.quick else 8000)]

def check(ctx):
    ctx.model("MCPointQuery", "MCPointKd.cfg" if ctx.quick else "MCPointKd5.cfg")
    ctx.model("MCPointQuery", "MCPointQuad.cfg" if ctx.quick else "MCPointQuad3.cfg")
    ctx.model("MCPointQuery", "MCPointKdNeg.cfg", expect_violation="Correct is violated")
    ctx.model("MCPointQuery", "MCPointQuadNeg.cfg", expect_violation="Correct is violated")
    exe = ctx.build("pointq", flags=["-D_GLIBCXX_ASSERTIONS"])
    recs = ctx.run_cases(exe, cases(ctx), "pointq")
    ctx.validate("PointQueryTrace", recs, "Trace.cfg")
    ctx.assumptions += ["coordinates are integers divided by a power of two: whether a point lies in a triangle is decided exactly", "k-d trees built without a level limit over at least one point", "no two triangles of a mesh overlap, none is flat"]
