"""P02: parallel loops run every task exactly once."""
from M01 import J

TRI = (6, [0, 0, 1, 0, 2, 0, 0, 1, 1, 1, 2, 1], [0, 1, 4, 0, 4, 3, 1, 2, 5, 1, 5, 4])

def check(ctx):
    r = ctx.rng; exe = ctx.build("par")
    ctx.model("MCParFor", "MCParFor.cfg")
    ctx.model("MCParFor", "MCParForNeg.cfg", expect_violation="Refines is violated")
    cs = []
    def add(kind, n, nt, be=0, extra=()): cs.append(J(len(cs), kind, n, be, nt, r.randint(0, 1), r.choice((0, 0, 1, 1, 2)), r.randint(0, 999999), *extra))
    kinds = ("range", "set", "vec", "map", "list", "nested")
    for n in range(0, 10):
        for nt in (1, 2, 3, 4, 5, 8, 16): add("range", n, nt)
        for k in kinds: add(k, n, r.choice((1, 2, 3, 7, 12))); add(k, n, 4, 6)
    for _ in range(60 if ctx.quick else 600):
        add(r.choice(kinds), r.choice((r.randint(0, 40), r.randint(0, 200), 64, 63, 65)), r.choice((1, 2, 3, 4, 6, 8, 9, 17, 32, 64)), r.choice((0, 0, 6)))
    for _ in range(40 if ctx.quick else 400):
        nd = r.choice((2, 3, 3, 4)); d = r.randint(0, nd); st = [r.randint(-2, 2) for _ in range(nd)]
        st = [abs(x) for x in st]; sz = [r.randint(1, 3) for _ in range(nd)]
        if nd == 4: sz = [2, 1, 2, 1]
        bs = [s + r.randint(0, z - 1) for s, z in zip(st, sz)]; bz = [s + z - b for s, z, b in zip(st, sz, bs)]
        add("reg", 0, r.choice((1, 2, 3, 8, 13)), r.choice((0, 0, 6)), (nd, d, r.choice((0, 1, 2)), st, sz, bs, bz))
        nv, xy, tri = TRI
        add("tri", 0, r.choice((1, 2, 3, 8, 13)), r.choice((0, 0, 6)), (r.randint(0, 3), r.randint(0, 2), r.randint(0, 5), nv, len(tri) // 3, xy, tri))
    recs = ctx.run_cases(exe, cs, "par")
    big = [J(10000 + i, "sum", n, be, nt, 0, 0, 0) for i, (n, be, nt) in enumerate(
        [(100000, 0, 8), (100001, 6, 8), (1 << 20, 0, 7), ((1 << 31) + 11, 0, 16)] +
        ([] if ctx.quick else [((1 << 32) + 5, 0, 16), ((1 << 31) + 3, 6, 8), ((1 << 31) - 1, 0, 8), (65536, 0, 200)]))]
    recs += ctx.run_cases(exe, big, "parsum", chunks=1, one_timeout=400, timeout=800)
    ctx.validate("ParTrace", recs, "ParTrace.cfg", name="par")
    ctx.assumptions += ["at least one thread is requested"]
