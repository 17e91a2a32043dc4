"""E01: the command-line tool against Pipe (sessions over files)."""
import json, os, random, shutil, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from M01 import J
from D02 import VL as VL0
from cpcases import Case, fill, tri_mesh

VL = VL0 + ["-lvtkIOPLY-9.1", "-lvtkIOGeometry-9.1", "-lvtkIOParallelXML-9.1"]

def write_nc(fn, dims, names, recs, time):
    """classic NetCDF file: every variable over all dimensions; recs: one list of variables' values per timestep"""
    nm = lambda x: struct.pack(">i", len(x)) + x.encode() + b"\0" * (-len(x) % 4)
    if time: dims = [("time", 0)] + dims        # the record dimension
    size = 8 * len(recs[0][0])
    def head(off):
        h = b"CDF\1" + struct.pack(">i", len(recs) if time else 0) + struct.pack(">ii", 10, len(dims)) + b"".join(nm(n) + struct.pack(">i", k) for n, k in dims) + struct.pack(">ii", 0, 0)
        h += struct.pack(">ii", 11, len(names))
        for i, n in enumerate(names):
            h += nm(n) + struct.pack(">i%di" % len(dims), len(dims), *range(len(dims))) + struct.pack(">ii", 0, 0) + struct.pack(">iii", 6, size, off + i * size)
        return h
    with open(fn, "wb") as f:
        f.write(head(len(head(0))))
        for r in recs:
            for d in r: f.write(struct.pack(">%dd" % len(d), *d))

class Session:
    """an input series, the commands run on it and the files they wrote"""
    def __init__(self, ctx, r, i):
        self.i, self.r, self.tri = i, r, r.random() < .2
        self.dir = os.path.join(ctx.work, "s%d" % i)
        nd = 2 if r.random() < .75 else 3
        der = r.choice((1, 2))
        dims = [r.randint(5, 8), r.randint(5, 8)] if nd == 2 else [r.randint(6, 7), 6, 6] if der == 2 else [r.randint(4, 5), 4, 4]
        r.shuffle(dims)
        self.b = b = 2 if der == 2 else 1
        self.T = r.randint(1, 4 if nd == 2 else 3)
        kw = {}
        if r.random() < .4:         # physical bounds of the array, as origin and spacing or --bounds
            cb = []
            for d in dims: a = r.randint(-3, 3); cb += [a, a + (d - 1) * r.randint(1, 3)]
            kw = dict(coord=1, cb=cb)
        self.c = c = Case(i, **kw, dims=dims, lo=[b] * nd, sz=[d - b - 1 for d in dims], der=der)
        fill(r, c, self.T)
        if der == 2:
            w = r.choice((1, 2, 4)) if nd == 2 else 1; c.snaps = []
            for t in range(self.T): c.snap(None, [r.randint(-w, w) for _ in range(c.N)], None)
        if self.tri:                # a triangle mesh with its vectors in .vtu files
            nd, der = 2, 0
            self.c = c = Case(i, mesh="tri", tri=tri_mesh(r)); fill(r, c, self.T); c.snaps = [(v, None, None) for v, s, j in c.snaps]
        self.nd, self.der = nd, der
        self.fmt = "vtu" if self.tri else r.choice(("float32", "float64", "vti", "nc"))
        self.cmds, self.log = [], []
    def inputs(self):
        r, c = self.r, self.c
        os.makedirs(self.dir)
        ext = dict(float32="raw", float64="bin", vti="vti", nc="nc", vtu="vtu")[self.fmt]
        group = []
        for t, (v, s, j) in enumerate(c.snaps):
            fn = os.path.join(self.dir, "in-%04d.%s" % (t, ext))
            vals = [x for row in v for x in row] if v is not None else list(s)
            nc = self.nd if v is not None else 1
            if self.fmt[0] == "f":
                with open(fn, "wb") as f: f.write(struct.pack("<%d%s" % (len(vals), "f" if self.fmt == "float32" else "d"), *vals))
            elif self.fmt == "vtu":
                P, Tr = c.tri
                arr = lambda n, nc, a, ty: '<DataArray type="%s" Name="%s" NumberOfComponents="%d" format="ascii">%s</DataArray>\n' % (ty, n, nc, " ".join(map(str, a)))
                with open(fn, "w") as f:
                    f.write('<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="0.1" byte_order="LittleEndian">\n<UnstructuredGrid><Piece NumberOfPoints="%d" NumberOfCells="%d">\n' % (len(P), len(Tr)) +
                            "<PointData>" + (arr("fld", 2, vals, "Float64") if self.vone else "".join(arr("ab"[k], 1, vals[k::2], "Float64") for k in (0, 1))) + "</PointData>\n" +
                            "<Points>" + arr("Points", 3, [x for p in P for x in (p[0], p[1], 0)], "Float64") + "</Points>\n<Cells>" +
                            arr("connectivity", 1, [x for t in Tr for x in t], "Int64") + arr("offsets", 1, range(3, 3 * len(Tr) + 1, 3), "Int64") + arr("types", 1, [5] * len(Tr), "UInt8") +
                            "</Cells>\n</Piece></UnstructuredGrid></VTKFile>\n")
            elif self.fmt == "vti":
                e = " ".join("0 %d" % (d - 1) for d in (c.dims + [1])[:3])
                og, sp = [0] * 3, [1] * 3
                if c.coord == 1:
                    for k in range(self.nd): og[k] = c.cb[2*k]; sp[k] = (c.cb[2*k+1] - c.cb[2*k]) // (c.dims[k] - 1)
                with open(fn, "w") as f:
                    f.write('<?xml version="1.0"?>\n<VTKFile type="ImageData" version="0.1" byte_order="LittleEndian">\n<ImageData WholeExtent="%s" Origin="%d %d %d" Spacing="%d %d %d">\n<Piece Extent="%s"><PointData>\n'
                            '<DataArray type="Float64" Name="fld" NumberOfComponents="%d" format="ascii">%s</DataArray>\n</PointData></Piece></ImageData></VTKFile>\n' % (e, *og, *sp, e, nc, " ".join(map(str, vals))))
            else:
                group.append([vals[k::nc] for k in range(nc)])
                if not self.nct or t == self.T - 1 or r.random() < .5:
                    write_nc(fn, [(n, k) for n, k in reversed(list(zip("xyz", c.dims)))], ["abc"[k] for k in range(nc)], group, self.nct); group = []
        a = ["--input", os.path.join(self.dir, "in-*." + ext)]
        if self.fmt not in ("vti", "vtu") or r.random() < .3: a += ["--input-format", self.fmt]
        if self.fmt[0] == "f": a += ["--width", c.dims[0], "--height", c.dims[1]] + (["--depth", c.dims[2]] if self.nd == 3 else [])
        if self.fmt == "nc": a += ["--var", ",".join("abc"[:nc])]
        elif self.fmt == "vtu" and not self.vone: a += ["--var", "a,b"]
        elif self.fmt[0] == "f" and nc > 1: a += ["--var", "u,v,w"[:2 * nc - 1]]
        if r.random() < .5: a += ["--timesteps", self.T]
        if c.coord == 1 and self.fmt != "vti": a += ["--bounds=" + ",".join(map(str, c.cb))]
        return a
    nct, vone = 0, 1
    def add(self, kind, fmt, out, opts, args, np=None):
        self.cmds.append(dict(kind=kind, fmt=fmt, out=out, o=dict(dict(ad="", at="", tf=-1, deg=0, st=0, len=0), **opts), args=args, np=np))
    def plan(self, par):
        r = self.r
        def ex():
            a = ["--nthreads", r.choice((1, 1, 2, 4))]
            if r.random() < .2: a += ["--async"]
            if r.random() < .2: a += ["--thread-backend", r.choice(("pthread", "tbb"))]
            if r.random() < .2: a += ["--nblocks", 1]
            return a
        def types():
            if self.nd == 3 or self.der < 2 or r.random() < .4: return {}, []
            k = r.sample(("min", "max", "saddle"), r.choice((1, 1, 2, 3))); return dict(tf=sum(dict(min=2, max=8, saddle=4)[x] for x in k)), ["--type-filter", "|".join(k)]
        np = None if self.tri else par
        fm = lambda *s: r.choice(s)
        oo, oa = types()
        if self.nd == 2 and not oo and not self.tri and r.random() < .3: oo, oa = dict(deg=1), ["--compute-degrees"]
        f1, f2 = fm("json", "bin"), fm("json", "bin", "json")
        self.add("points", f1, "d." + f1, oo, oa + ex(), np)
        self.add("curves", f2, "t." + f2, oo, oa + ex(), np)
        self.add("curves", "json", "t2.json", dict(oo, ad="d." + f1), oa * r.randint(0, 1) + ex() + ["--archived-intersections", "@d." + f1], r.choice((None, np)))
        f3 = fm("json", "bin", "text")
        self.add("curves", f3, "t3." + ("txt" if f3 == "text" else f3), dict(oo, at="t." + f2), ex() + ["--archived-traced", "@t." + f2])
        self.add("slices", "text", "s-%d.txt", dict(oo, at="t." + f2), ex() + ["--archived-traced", "@t." + f2])
        n = r.randint(0, 3)
        self.add("cuts", "vtp", "i-%d.vtp", dict(oo, at="t." + f2, len=n), ex() + ["--archived-traced", "@t." + f2, "--intercept-length", n])
        if r.random() < .5: self.add("slices", "text", "u-%d.txt", oo, oa + ex(), np)
        if r.random() < .5 and not oo.get("tf"): self.add("curves", "json", "o.json", dict(oo, st=1), oa + ex() + ["--stream"], np)
        if r.random() < .3 and not oo.get("tf"): self.add("slices", "text", "v-%d.txt", dict(oo, st=1), oa + ex() + ["--stream"], np)
    def run(self, exe, ctx):
        base = self.inputs()
        for c in self.cmds:
            p = lambda f: os.path.join(self.dir, f)
            ot = dict(points="discrete", curves="traced", slices="sliced", cuts="intercepted")[c["kind"]]
            a = ["--feature", "critical_point"] + base + ["--output", p(c["out"]), "--output-type", ot]
            if c["fmt"] == "text" and self.r.random() < .5: a += ["--output-format", "text"]
            for x in c["args"]: a.append(p(x[1:]) if isinstance(x, str) and x[0] == "@" else x)
            self.log.append(" ".join(map(str, a)))
            for k in range(2):
                rc, o, e = ctx.run(exe, a, timeout=60, np=c["np"], cwd=self.dir)
                if rc != "timeout": break
            c["rc"] = rc
            if rc != 0: c["err"] = e[-300:]
    def line(self):
        c = self.c
        mesh = [0] if not self.tri else [len(c.tri[0]), [x for p in c.tri[0] for x in p], len(c.tri[1]), [x for t in c.tri[1] for x in t]]
        return J(self.i, self.nd, c.dims, c.lo, c.sz, *mesh, len(self.cmds), *[J(k["kind"], k["fmt"], os.path.join(self.dir, k["out"]), self.T) for k in self.cmds])
    def merge(self, rec):
        if rec is None: return None
        f = json.loads(rec)["files"]; ev = []
        for c, x in zip(self.cmds, f):
            e = dict(op=c["kind"], o=c["o"], out=c["out"], text=int(c["fmt"] == "text"))
            if c["rc"] != 0 or x["err"]: ev.append(dict(e, op="failed", why="%s %s %s" % (c["rc"], x["err"], c.get("err", "")))); break
            e[dict(points="p", curves="tr", slices="sl", cuts="sl")[c["kind"]]] = x["c"]
            ev.append(e)
        h = self.c.header(); h["der"] = self.der
        return dict(id=self.i, kind="%dd%d%s" % (self.nd, self.der, self.fmt), h=h, cmds=self.log, ev=ev)

def check(ctx):
    ctx.model("MCPipe", "MCPipe.cfg")
    ctx.model("MCPipe", "MCPipeOnline.cfg")
    ctx.model("MCPipe", "MCPipeNeg.cfg", expect_violation="Complete is violated")
    cli = ctx.build("ftkcli", have=vlib.FULL, libs=vlib.LEAN_LIBS + VL, flags=["-I" + os.path.join(vlib.REPO, "src")], opt="-O0")
    exe = ctx.build("pipe", have=vlib.FULL, libs=vlib.LEAN_LIBS + VL, opt="-O0")
    ses = []
    for i in range(120 if ctx.quick else 1500):
        r = random.Random(ctx.rng.getrandbits(60)); s = Session(ctx, r, i)
        s.nct = r.randint(0, 1); s.vone = r.randint(0, 1); s.plan((2, 2 + (s.c.sz[0] > 2))[i % 2] if i % 5 == 0 else None); ses.append(s)
    try:
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda s: s.run(cli, ctx), ses))
        recs = ctx.run_cases(exe, [s.line() for s in ses], "pipe")
    finally:
        for s in ses: shutil.rmtree(s.dir, ignore_errors=True)
    ctx.validate("PipeTrace", [s.merge(o) for s, o in zip(ses, recs)], "PipeTrace.cfg", name="pipe")
    ctx.assumptions += ["small integer fields on regular grids, 1 to 4 timesteps; NetCDF, VTK image, raw float32/float64 inputs; json, binary and text outputs",
                        "no more processes than the first axis of the domain has points (the partition is empty otherwise)",
                        "with --stream the points of the last timestep belong to no trajectory yet"]
