"""F03: results written and read back against Persist."""
import struct
import vlib
from M01 import J
from D02 import VL as VL0

VL = VL0 + ["-lvtkIOPLY-9.1", "-lvtkIOGeometry-9.1", "-lvtkIOParallelXML-9.1"]
NASTY = ["0.1", "-0.1", "1e150", "-1e-300", "5e-324", "1.7976931348623157e153", "-0.0", "0", "1", "3.141592653589793", "123456789.123456789", "-2", "1e22", "0.30000000000000004", "4503599627370497.5"]

class Gen:
    def __init__(self, r, cls): self.r, self.cls = r, cls
    def num(self):
        r = self.r
        if self.cls == "any": return r.choice(NASTY) if r.random() < .6 else repr(r.uniform(-1e3, 1e3))
        if self.cls == "flt" and r.random() < .3: return repr(struct.unpack("f", struct.pack("f", r.choice((r.uniform(-1e4, 1e4), 1e-20 * r.random(), 3e7 * r.random()))))[0])
        return repr(r.randint(-4000, 4000) / 4)
    def point(self, tag=None, dup=None):
        r = self.r; big = self.cls == "any"
        tag = tag if tag is not None else r.choice((r.randint(0, 9999), 2 ** 32 - 1 if not big else 2 ** 63 + r.randint(0, 99)))
        ty = r.choice((0, 1, 2, 4, 8, 16, 5, 2 ** 32 - 1 if big else 7)); i = r.randint(0, 99) if not big else r.choice((7, 2 ** 40 + 3))
        x = [self.num() for _ in range(3)]
        if self.cls != "any": t = r.choice((r.randint(0, 3), r.randint(0, 24) / 8))
        else: t = self.num()
        return J(*x, t, r.randint(-2, 9) if big else r.randint(0, 9), *[self.num() for _ in range(4)], *[self.num() for _ in range(3)], ty, r.randint(0, 1), tag, i)
    def curves(self):
        r = self.r; keys = r.choice(([0, 1, 2, 3], [0, 0, 0, 1], [5, 2, 5, 2, 9], [0, 1000000], [1, 1, 2]))
        out = []
        for _ in range(r.choice((0, 1, 1, 2, 3, 5))):
            n = r.choice((0, 1, 1, 2, 3, 4, 6)); out.append(J(r.choice(keys), r.randint(0, 1), int(r.random() < .4), 1 if self.cls != "any" else r.randint(0, 1), n, *[self.point() for _ in range(n)]))
        return J("curves", r.randint(0, 1), len(out), *out)

def case(r, np):
    cls = r.choice(("any", "flt", "sml")); g = Gen(r, cls); kind = r.choice((2, 3, 4)); ns = r.choice((0, 1, 2, 3)); ops = []
    pool = [r.randint(0, 767 if kind == 2 else 3199 if kind == 3 else 60) for _ in range(5)]
    def tag(): return r.choice(pool)
    def points(): n = r.choice((0, 1, 2, 4)); return J("points", r.randint(0, 1), n, *[g.point(tag()) for _ in range(n)])
    def slices():
        n = r.choice((0, 1, 2, 3)); ks = r.sample(range(-1, 6), n); return J("slices", r.randint(0, 1), n, *[J(k, c, *[g.point() for _ in range(c)]) for k in ks for c in [r.choice((0, 1, 2, 3))]])
    wrote = []                                        # (kind of object, form, name)
    ops += [g.curves(), g.curves(), points(), slices()]
    for _ in range(r.randint(4, 9)):
        k = r.random(); s = r.randint(0, 1)
        if k < .15: ops.append(r.choice((g.curves, points, slices))())
        elif k < .2: ops.append(J("drop", s, r.randint(0, 2)))
        elif k < .5 or not wrote:
            o = r.choice(("curves", "curves", "curves", "points", "slices"))
            f = {"curves": ["json", "bin"] + ([] if cls == "any" else ["vtp", "vtp"]) + (["vtk"] if cls == "sml" else []), "points": ["json", "bin"], "slices": ["json"]}[o]
            f = r.choice(f); n = r.choice("ab"); ops.append(J("write", s, o, f, n, *([r.choice((0, 2))] if (o, f) == ("curves", "json") else []))); wrote.append((o, f, n))
            if r.random() < .6: ops.append(J("read", 1 - s if r.random() < .7 else s, o, f, n))
        elif k < .65: ops.append(J("read", s, *r.choice(wrote)))
        elif k < .75:
            b, two = r.choice("cd"), r.randint(0, 1); ops += [J("swrite", s, b, two)] + ([g.curves()] if r.random() < .4 else []) + [J("sread", r.randint(0, 1), b, two)]
        elif cls == "sml" or (cls == "flt" and k < .9):
            o, f = r.choice((("curves", "txt"), ("points", "txt"), ("slices", "txt")) if cls == "sml" and r.random() < .6 else (("points", "vtp"), ("points", "vtp"), ("slices", "vtp"), ("window", "vtp"), ("curves", "vtp")))
            a, b = (r.randint(-1, 5), r.randint(0, 1)) if o == "slices" else (r.randint(0, 1), r.randint(0, 1))
            if o == "window": a = r.randint(0, 3); b = a + r.randint(0, 2)
            ops.append(J("export", s, o, f, "x%d" % len(ops), a, b))
    return J(kind, ns, len(ops), *ops)

def surf(r):
    g = Gen(r, "flt"); n = r.choice((5, 5, 7, 9)); p = [g.point() for _ in range(n)]
    def cells(k): m = r.choice((0, 1, 2, 3)); return J(m, *[J(*r.sample(range(n), k)) for _ in range(m)])
    return J(2, 0, 1, "surf", n, *p, cells(3), cells(4), cells(5), r.randint(0, 1))

def retrace(r):
    kind = r.choice((2, 2, 3, 4)); nt = r.randint(1, 3 if kind != 3 else 2); m = {2: 162, 3: 375, 4: 18}[kind]; lim = 4 if kind != 3 else 2
    return J(kind, 0, 1, "retrace", nt, r.randint(0, 1), *[r.randint(-lim, lim) for _ in range(m * nt)])

def check(ctx):
    ctx.model("MCPersist", "MCPersist.cfg" if ctx.quick else "MCPersist3.cfg")
    ctx.model("MCPersist", "MCPersistNeg.cfg", expect_violation="Same is violated")
    exe = ctx.build("persist", have=vlib.FULL, libs=vlib.LEAN_LIBS + VL)
    r = ctx.rng; env = {"VERIF_SCRATCH": ctx.work}; q = ctx.quick
    cs = [case(r, 1) for _ in range(500 if q else 6000)] + [surf(r) for _ in range(60 if q else 600)] + [retrace(r) for _ in range(60 if q else 600)]
    ctx.validate("PersistTrace", ctx.run_cases(exe, [J(i, c) for i, c in enumerate(cs)], "files", env=env), "Trace.cfg", name="files")
    cs = [case(r, 2) for _ in range(60 if q else 600)]
    ctx.validate("PersistTrace", ctx.run_cases(exe, [J(i, c) for i, c in enumerate(cs)], "files2", env=env, np=2, chunks=3), "Trace.cfg", name="files, 2 processes")
    ctx.assumptions += ["values are finite (JSON has no others)", "poly data keep what 32-bit numbers hold; the time step and kind of a point and scalars without a name are not part of them",
                        "text keeps six digits"]
