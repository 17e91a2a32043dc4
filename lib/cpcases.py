"""Random feature-tracker cases: harness input line + header for spec/CPTrace.tla."""
import json
BIG = 1 << 30

def J(*a):
    o = []
    for x in a:
        if isinstance(x, (list, tuple)): o += [str(y) for y in x]
        else: o.append(str(x))
    return " ".join(o)

class Case:
    """one recorded run of a tracker: parameters, snapshots, operations"""
    def __init__(self, i, mesh="reg", dims=(4, 4), lo=None, sz=None, t0=0, t1=-1, nth=1, backend=0, stream=0, sym=1,
                 sca=0, jac=0, tf=-1, partial=0, root=0, coord=0, cb=(), tri=None, der=0, only=(), deg=0):
        self.__dict__.update(locals())
        self.nd = len(dims) if mesh == "reg" else 2
        self.dims = list(dims) if mesh == "reg" else [1, 1]
        self.lo = list(lo) if lo else [0] * self.nd
        self.sz = list(sz) if sz else list(self.dims)
        self.snaps, self.ops = [], []
        self.q = "1"
        if mesh == "tri": self.sym = int(bool(sca))     # that tracker takes Jacobians for Hessians iff a scalar field is there
        if der == 1: self.sym = 0
        if der == 2: self.sym = 1
        if mesh == "tri" and deg:           # degrees refer to the mesh's orientation: list every triangle counterclockwise
            P, T = tri
            self.tri = tri = (P, [t if (P[t[1]][0]-P[t[0]][0])*(P[t[2]][1]-P[t[0]][1]) > (P[t[2]][0]-P[t[0]][0])*(P[t[1]][1]-P[t[0]][1]) else [t[1], t[0], t[2]] for t in T])
        if mesh == "tri": self.N = len(tri[0])
        else:
            self.N = 1
            for d in self.dims: self.N *= d

    def coords(self, s):
        """position of spatial vertex s, times 1 (integers)"""
        if self.mesh == "tri": return [self.tri[0][s][0], self.tri[0][s][1], 0]
        p = []
        for d in self.dims: p.append(s % d); s //= d
        if self.coord == 1:
            p = [self.cb[2*k] + p[k] * (self.cb[2*k+1] - self.cb[2*k]) // (self.dims[k] - 1) for k in range(self.nd)]
        elif self.coord == 2:
            off = 0; q = []
            for k in range(self.nd): q.append(self.cb[off + p[k]]); off += self.dims[k]
            p = q
        elif self.coord == 3:
            s0 = 0
            for k in reversed(range(self.nd)): s0 = s0 * self.dims[k] + p[k]
            return list(self.cb[3*s0:3*s0+3])
        return p + [0] * (3 - len(p))

    def snap(self, v=None, s=None, j=None):
        self.snaps.append((v, s, j)); return len(self.snaps) - 1

    def op(self, *a): self.ops.append(J(*a)); return self

    def line(self):
        src = 1 if self.sca else 0
        jsrc = 2 if self.der else (1 if self.jac else 0)
        if self.der == 2: src = 1
        a = [self.i, "tri" if self.mesh == "tri" else "reg", self.nd, self.dims, self.lo, self.sz, self.t0, self.t1, self.nth, self.backend,
             self.stream, self.sym + 2 * self.deg, src, jsrc, self.tf, self.partial, self.root, self.q, self.coord, len(self.cb), self.cb]
        if self.mesh == "tri":
            a += [self.N, [x for p in self.tri[0] for x in p], len(self.tri[1]), [x for t in self.tri[1] for x in t]]
        a.append(len(self.snaps))
        for v, s, j in self.snaps:
            a += [int(v is not None), int(s is not None), int(j is not None)]
            if v is not None: a += [x for r in v for x in r]
            if s is not None: a += list(s)
            if j is not None: a += [x for r in j for x in r]
        a += [len(self.ops), " ".join(self.ops)]
        return J(*a)

    def header(self):
        z = lambda f, w: f if f is not None else []
        return dict(mesh=self.mesh, nd=self.nd, dims=self.dims, lo=self.lo, sz=self.sz, N=self.N, t0=self.t0,
                    t1=BIG if self.t1 < 0 else self.t1, tris=[sorted(t) for t in self.tri[1]] if self.mesh == "tri" else [],
                    pc=[self.coords(s) for s in range(self.N)],
                    snaps=[dict(v=z(v, 0), s=z(s, 0), j=z(j, 0)) for v, s, j in self.snaps],
                    sca=int(bool(self.sca or self.der == 2)), jac=int(bool(self.jac or self.der)), sym=self.sym, tf=self.tf, stream=self.stream,
                    der=self.der, deg=self.deg, only=list(self.only))

    def merge(self, rec):
        if rec is None: return None
        r = json.loads(rec); r["h"] = self.header()
        r["kind"] = ("tri" if self.mesh == "tri" else "%dd" % self.nd) + ("s" if self.stream else "")
        return r

# ---------------------------------------------------------------- random content
def vec_field(r, c, lo=-4, hi=4, nanp=0.0, flat=0.0):
    """random vector values; flat: probability of a value from {-1,0,1} (ties)"""
    def one():
        return r.choice((-1, 0, 1)) if r.random() < flat else r.randint(lo, hi)
    out = []
    for _ in range(c.N):
        row = [one() for _ in range(c.nd)]
        if nanp and r.random() < nanp: row[r.randrange(c.nd)] = r.choice((99999, 99998))
        out.append(row)
    return out

def degenerate_field(r, c, lo, hi):
    """components that vanish, are constant, or copy each other (on most of the vertices): deep symbolic ties"""
    mode = c.__dict__.setdefault("_dg", [r.choice(("rand", "zero", "zero", "const", "copy", "few")) for _ in range(c.nd)])
    noise = r.choice((0, 0, .1, .3)); k0 = [r.choice((-1, 0, 1)) for _ in range(c.nd)]
    out = []
    for _ in range(c.N):
        row = []
        for i in range(c.nd):
            m = mode[i]
            if noise and r.random() < noise: m = "few"
            row.append(r.randint(lo, hi) if m == "rand" else 0 if m == "zero" else k0[i] if m == "const"
                       else r.choice((1, -1, 0)) if m == "few" else (row[0] if row else r.choice((0, 1))))
        out.append(row)
    return out

def smooth_field(r, c, k, t):
    """a low-frequency integer field moving with time: long curves and loops"""
    a = [r.randint(-2, 2) for _ in range(c.nd)] if t == 0 else c._sm
    c._sm = a
    out = []
    for s in range(c.N):
        p = []; q = s
        for d in c.dims: p.append(q % d); q //= d
        row = []
        for i in range(c.nd):
            x = p[i] * 2 - (c.dims[i] - 1) + a[i] * t
            row.append(x if (s * 7 + i) % 3 else x + r.randint(-1, 1))
        out.append(row)
    return out

def scalars(r, c, m=8): return [r.randint(-m, m) for _ in range(c.N)]

def jacs(r, c, m=3, same=False):
    n = c.nd * c.nd
    if same:
        row = [r.randint(-m, m) for _ in range(n)]
        return [row] * c.N
    return [[r.randint(-m, m) for _ in range(n)] for _ in range(c.N)]

def sym_jacs(r, c, m=3):
    out = []
    for _ in range(c.N):
        a = [[0] * c.nd for _ in range(c.nd)]
        for i in range(c.nd):
            for k in range(i, c.nd): a[i][k] = a[k][i] = r.randint(-m, m)
        out.append([a[i][k] for i in range(c.nd) for k in range(c.nd)])
    return out

def tri_mesh(r):
    """a random small triangulation: a grid with random diagonals (distorted), or a fan"""
    if r.random() < .3:
        n = r.randint(3, 6)
        pts = [[0, 0], [4, 0], [5, 3], [2, 6], [-2, 5], [-4, 2], [-3, -2]][:n + 1]
        tris = [[0, k, k % n + 1] for k in range(1, n + (1 if n >= 5 else 0))]
    else:
        w, h = r.choice([(3, 3), (4, 3), (3, 2), (4, 4)])
        pts = [[3 * x + r.randint(0, 1), 3 * y + r.randint(0, 1)] for y in range(h) for x in range(w)]
        tris = []
        for y in range(h - 1):
            for x in range(w - 1):
                a, b, c, d = y*w+x, y*w+x+1, (y+1)*w+x, (y+1)*w+x+1
                if r.random() < .5: tris += [[a, b, d], [a, d, c]]
                else: tris += [[a, b, c], [b, d, c]]
        if r.random() < .3: tris.pop(r.randrange(len(tris)))
    for t in tris: r.shuffle(t)
    p = list(range(len(pts))); r.shuffle(p)
    used = sorted({x for t in tris for x in t})
    pts = [pts[u] for u in used]; ren = {u: k for k, u in enumerate(used)}
    tris = [[ren[x] for x in t] for t in tris]
    r.shuffle(tris)
    return pts, tris

def random_shape(r, mesh):
    """mesh 2/3/'tri' -> constructor arguments incl. sub-domain and array extents"""
    if mesh == "tri": return dict(mesh="tri", tri=tri_mesh(r))
    if mesh == 2: dims = [r.randint(2, 5), r.randint(2, 5)]
    else: dims = [r.choice((2, 3)), r.choice((2, 3)), r.choice((2, 2, 3))]
    kw = dict(dims=dims)
    if r.random() < .35:
        lo, sz = [], []
        for d in dims:
            l = r.randint(0, max(0, d - 2)); lo.append(l); sz.append(r.randint(min(2, d - l), d - l))
        kw.update(lo=lo, sz=sz)
    return kw

def coords_mode(r, kw):
    dims = kw.get("dims")
    if not dims: return kw
    m = r.choice((0, 0, 1, 2, 3))
    if m == 1:
        cb = []
        for d in dims: a = r.randint(-3, 3); cb += [a, a + (d - 1) * r.randint(1, 3)]
        kw.update(coord=1, cb=cb)
    elif m == 2:
        cb = []
        for d in dims:
            x = r.randint(-3, 3)
            for _ in range(d): cb.append(x); x += r.randint(1, 3)
        kw.update(coord=2, cb=cb)
    elif m == 3:
        n = 1
        for d in dims: n *= d
        kw.update(coord=3, cb=[r.randint(-6, 6) for _ in range(3 * n)])
    return kw

def fill(r, c, nt, lo=None, hi=None, nanp=0.0):
    if c.der: nanp = 0
    """nt snapshots of one random flavour"""
    if lo is None: lo, hi = (-8, 8) if c.nd == 2 else (-2, 2)
    fl = r.choice((0, 0, .5, 1)) if c.nd == 2 else r.choice((0, .5, 1))
    style = r.random()
    same = r.random() < .3
    for t in range(nt):
        if c.mesh == "reg" and style < .3 and c.nd == 2 and c.der != 2: v = smooth_field(r, c, 0, t)
        elif .3 < style < .55: v = degenerate_field(r, c, lo, hi)
        else: v = vec_field(r, c, lo, hi, nanp, fl)
        s = scalars(r, c) if c.sca else None
        if c.der == 2:
            s = scalars(r, c, 1); v = None
        j = None
        if c.jac:
            m = 3 if c.nd == 2 else 1
            if c.sym:
                j = sym_jacs(r, c, m)
                if same: j = [j[0]] * c.N
            else: j = jacs(r, c, m, same)
        c.snap(v, s, j)

def schedule(r, c, nt, check=True, lag=None):
    """push nt snapshots and advance through them; every schedule allowed by the interface"""
    pushed = adv = 0
    lag = r.choice((1, 1, 1, 2, 3, nt)) if lag is None else lag     # how far pushing may run ahead
    P = {0: "P", 1: "V", 2: "S"}[c.der]
    while adv < nt:
        if pushed < nt and (pushed - adv < 1 or (pushed - adv <= lag and r.random() < .8)):
            c.op(P, pushed); pushed += 1; continue
        if pushed < nt and pushed - adv < 2 and r.random() < .9: # normally wait for the pair
            c.op(P, pushed); pushed += 1; continue
        if r.random() < .08 and not c.stream: c.op("U")
        c.op("A"); adv += 1
        if check and r.random() < .6: c.op("C")
        if check and c.stream: c.op("T")
