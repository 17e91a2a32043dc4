"""D02: array operations and fields in files against NdArray."""
import vlib
from M01 import J

VL = ["-lvtkCommonCore-9.1", "-lvtkCommonDataModel-9.1", "-lvtkCommonExecutionModel-9.1", "-lvtkIOXML-9.1", "-lvtkIOLegacy-9.1", "-lvtkIOCore-9.1", "-lvtkFiltersCore-9.1", "-lvtkFiltersGeneral-9.1",
      "-lvtkCommonMath-9.1", "-lvtksys-9.1", "-lnetcdf", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lhdf5_hl", "-lpng", "-lmps"]

def prod(d):
    n = 1
    for x in d: n *= x
    return n

def box(r, d):
    st = [r.randrange(n) for n in d] if r.random() < .8 else [0] * len(d)
    return st, [r.randint(1, n - s) if r.random() < .8 else n - s for n, s in zip(d, st)]

def alg(r, files):
    T = r.choice("dffi" if files else "ddffi"); A = []; ops = []           # A: shape, component dimensions (None: not defined), bound of |value|
    def out(*xs): A.extend(xs)
    def pick(ok=lambda a: True):
        c = [i for i, a in enumerate(A) if ok(a)]
        return r.choice(c[-4:] if r.random() < .6 else c) if c else None
    def new():
        nd = r.choice((1, 2, 2, 3, 3, 4)); top = {1: 9, 2: 6, 3: 4, 4: 3}[nd]; d = [r.randint(1, top) for _ in range(nd)]
        if files and nd > 1 and r.random() < .6: d = [max(2, x) for x in d]
        m = r.choice((1, 5, 100)); lo, hi = r.choice(((-m, m), (0, m), (-m, -1), (1, m))); c = r.choice((0, 0, 1)) if nd > 1 else 0
        if nd > 2 and r.random() < .15: c = 2
        ops.append(("new", nd, *d, c, *[r.randint(lo, hi) for _ in range(prod(d))], r.randrange(5))); out((d, c, m))
        if files and lo >= 0 and r.random() < .3: ops.append(("ncul", len(A) - 1)); out((d, None, m))
    def defc(i, c):                                                       # component markers are set before they matter
        d, k, m = A[i]; ops.append(("setc", i, c)); out((d, c, m)); return len(A) - 1
    new(); n = r.randint(3, 11)
    while len(ops) < n:
        if sum(prod(a[0]) for a in A) > 600: break
        k = r.random(); i = pick(); d, c, m = A[i]; nd = len(d)
        if files and k < .8:
            o = r.choice(("bin", "bin", "vti", "vti", "vti", "nc", "nc", "nc", "h5", "binseq", "vtiseq", "amira", "ser"))
            if o == "bin": j = defc(i, c or 0); ops.append((o, j, 0 if T == "i" else r.choice((0, 0, 2) if T == "d" else (0, 1, 2)))); out(A[j])
            elif o == "ser": j = defc(i, c or 0); ops.append((o, j)); out(A[j])
            elif o == "vti":
                cc = 1 if nd == 4 else 0 if nd == 2 else r.choice((0, 1)) if nd == 3 else None
                if cc is None or min(d[cc:]) < 2 or (cc and d[0] < 2): continue
                j = defc(i, cc); ops.append((o, j, r.choice((0, 1, 2)))); out(A[j])
            elif o == "nc":
                md = r.choice((0, 1, 1, 2, 3, 4))
                if nd == 4 and md == 3: md = 1
                if md == 3 and d[-1] == 1: md = 2
                st, sz = box(r, d); ops.append((o, i, md, nd, *st, *sz)); out((d if md in (0, 3, 4) else sz, None, m))
            elif o == "h5": ops.append((o, i, r.randrange(3))); out((d, None, m))
            elif o in ("binseq", "vtiseq"):
                if o == "vtiseq":
                    if nd not in (2, 3) or min(d) < 2 or c != 0: continue
                S = [j for j, a in enumerate(A) if a[0] == d and (o != "vtiseq" or a[1] == 0)]; v = [r.choice(S) for _ in range(r.randint(1, 4))]
                ops.append((o, len(v), *v)); out((d + [len(v)], None, max(A[j][2] for j in v)))
            elif o == "amira":
                if T != "f" or nd != 4: continue
                ops.append((o, i)); out((d, 1, m))
            continue
        o = r.choice(("new", "at", "at", "set", "fill", "slice", "slice", "sub", "sub", "sub", "tr", "tr", "time", "times", "stack", "concat", "add", "mul", "div", "clamp", "stat", "stat", "mk", "resh", "copy", "ser", "eq", "lerp", "lerp"))
        if o == "new": new()
        elif o == "at": ops.append((o, i, *[r.randrange(x) for x in d]))
        elif o == "set": v = r.randint(-9, 9); j = defc(i, c or 0); ops.append((o, j, v, *[r.randrange(x) for x in d])); A[j] = (d, c or 0, max(m, 9)); out(A[j]); 
        elif o == "fill": j = defc(i, c or 0); ops.append((o, j, 7)); out((d, c or 0, 7))
        elif o == "slice": st, sz = box(r, d); ops.append((o, i, nd, *st, *sz)); out((sz, None, m))
        elif o == "sub":
            cc = c if c is not None else r.randrange(min(nd, 3)); j = defc(i, cc); full = r.random() < .3
            if cc == nd: continue
            st, sz = box(r, d if full else d[cc:]); ops.append((o, j, len(st), *st, *sz)); out((sz if full else d[:cc] + sz, cc, m))
        elif o == "tr":
            if nd > 4: continue
            ops.append((o, i)); out((d[::-1], None, m), (d[::-1], None, m))
        elif o == "time":
            if nd < 2: continue
            ops.append((o, i, r.randrange(d[-1]))); out((d[:-1], None, m))
        elif o == "times":
            if nd < 2: continue
            ops.append((o, i)); out(*[(d[:-1], None, m)] * d[-1])
        elif o in ("stack", "concat"):
            if nd > 4: continue
            S = [j for j, a in enumerate(A) if a[0] == d]; v = [r.choice(S) for _ in range(r.randint(1, 4))]
            ops.append((o, len(v), *v)); s = [len(v)]; out((s + d if o == "concat" else d + s, None, max(A[j][2] for j in v)))
        elif o == "add":
            S = [j for j, a in enumerate(A) if a[0] == d]; j = r.choice(S); ops.append((o, i, j)); out(*[(d, None, m + A[j][2])] * 2)
        elif o == "mul":
            if m > 20000: continue
            f = r.choice((-2, 2, 3, 0, -1)); ops.append((o, i, f)); out(*[(d, None, m * max(1, abs(f)))] * 2)
            if f and r.random() < .5: ops.append(("div", len(A) - 1, f)); out(*[(d, None, m)] * 2)
        elif o == "clamp": l = r.randint(-20, 10); h = l + r.choice((0, 3, 30)); j = defc(i, c or 0); ops.append((o, j, l, h)); out((d, c or 0, max(m, abs(l), abs(h))))
        elif o == "stat": ops.append((o, i))
        elif o == "mk":
            if nd > 4: continue
            j = defc(i, 0); ops.append((o, j)); out(([1] + d, 1, m))
        elif o == "resh":
            f = [x for x in d if x > 1]; r.shuffle(f)
            while len(f) > 2 and r.random() < .5: f = [f[0] * f[1]] + f[2:]
            f = f or [1]; ops.append((o, i, len(f), *f)); out((f, None, m))
        elif o == "copy": j = defc(i, c or 0); ops.append((o, j, r.randrange(5))); out(A[j])
        elif o == "ser": j = defc(i, c or 0); ops.append((o, j)); out(A[j])
        elif o == "eq":
            S = [j for j, a in enumerate(A) if prod(a[0]) == prod(d)]; ops.append((o, i, r.choice(S)))
        elif o == "lerp":
            cc = r.choice((0, 0, 1)) if nd > 1 else 0
            if T == "i" or nd - cc > 3 or m > 60000: continue
            j = defc(i, cc)
            for _ in range(3): ops.append((o, j, *[r.randint(-1, 4 * x - 3) if x > 1 and r.random() < .5 else r.randint(0, max(0, 4 * x - 5)) for x in d[cc:]]))
    return J(T, "alg", len(ops), " ".join(J(*o) for o in ops))

def stream(r, np):
    fmt = r.choice(("float32", "float64", "vti", "vtu", "nc", "ncu", "h5")); T = r.choice("dddf")
    nd = 1 if fmt == "vtu" else r.choice((2, 2, 3)); lo = 2 if fmt == "vti" else 1
    if fmt in ("nc", "ncu", "h5") and r.random() < .15: nd = 1
    if fmt == "h5": nd = max(nd, 1)
    d = [r.randint(lo, 5 if nd < 3 else 4) for _ in range(nd)]
    if nd == 1: d = [r.randint(2, 12)]
    if fmt == "nc" and nd == 1: nd = 2; d = [d[0], r.randint(1, 4)]
    nv = r.choice((1, 1, 2, 3)); nc = 1
    if fmt in ("vti", "vtu") and nv == 1: nc = r.choice((1, 2, 3))
    part = r.choice((0, 1, 1)) if fmt != "h5" else 0
    if np > 1 and fmt != "h5": part = r.choice((0, 1, 1, 1))
    nt = r.randint(1, 5); b = []
    for p in range(np): st, sz = box(r, d); b += st + sz
    return J(T, "str", fmt, r.randint(0, 1), nt, r.choice((-1, -1, r.randint(1, 6))), r.randint(1, 3), nd, *d, nv, nc, part, r.randint(0, 9999), r.randrange(4), *b)

def check(ctx):
    ctx.model("MCNdArray", "MCNdArray3.cfg" if ctx.quick else "MCNdArray4.cfg")
    ctx.model("MCNdArray", "MCNdArrayNeg.cfg", expect_violation="Same is violated")
    exe = ctx.build("nd", have=vlib.FULL, libs=vlib.LEAN_LIBS + VL)
    r = ctx.rng; env = {"VERIF_SCRATCH": ctx.work}
    cs = [J(i, alg(r, i % 3 == 0)) for i in range(900 if ctx.quick else 12000)]
    ctx.validate("NdTrace", ctx.run_cases(exe, cs, "alg", env=env), "Trace.cfg", name="operations")
    for np, n in ((1, 240), (2, 100), (3, 60)):
        cs = [J(i, stream(r, np)) for i in range(n if ctx.quick else n * 10)]
        ctx.validate("NdTrace", ctx.run_cases(exe, cs, "str%d" % np, env=env, np=np if np > 1 else None, chunks=8 if np == 1 else 3), "Trace.cfg", name="files, %d processes" % np)
    ctx.assumptions += ["element values are integers small enough to be exact in every element type; several variables of one file have one component each",
                        "component markers are compared where the operation defines them: creation, copies, conversions, sub-arrays, serialisation, image files and streams",
                        "ADIOS and parallel netCDF are not available here; image data has at least two points along each dimension"]
