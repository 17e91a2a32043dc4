"""M03: triangle and tetrahedral meshes and their time extrusion against UMesh."""
import itertools
from M01 import J
import vlib
VTK = ["vtkCommonCore", "vtkCommonDataModel", "vtkCommonExecutionModel", "vtkIOXML", "vtkIOLegacy", "vtkIOCore"]
LIBS = vlib.LEAN_LIBS + ["-l%s-9.1" % x for x in VTK]
HAVE = vlib.LEAN | {"FTK_HAVE_VTK"}

def grid2(r, nx, ny, wrap=False):
    c = []
    at = (lambda i, j: (i % nx) + nx * (j % ny)) if wrap else (lambda i, j: i + nx * j)
    for i in range(nx if wrap else nx - 1):
        for j in range(ny if wrap else ny - 1):
            a, b, d, e = at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1)
            c += [[a, b, e], [a, d, e]] if r.random() < .5 else [[a, b, d], [b, d, e]]
    return nx * ny, c

def grid3(nx, ny, nz):
    c = []
    at = lambda p: p[0] + nx * (p[1] + ny * p[2])
    for o in itertools.product(range(nx - 1), range(ny - 1), range(nz - 1)):
        for perm in itertools.permutations(range(3)):
            p = list(o); s = [at(p)]
            for k in perm:
                p[k] += 1; s.append(at(p))
            c.append(s)
    return nx * ny * nz, c

CLOSED2 = [(4, [[0,1,2],[0,1,3],[0,2,3],[1,2,3]]), (6, [[a, b, c] for a in (0, 5) for b, c in ((1,2),(2,3),(3,4),(4,1))])]
CLOSED3 = [(5, [list(x) for x in itertools.combinations(range(5), 4)])]

def scramble(r, nv, cells, extra):
    nv += extra
    p = list(range(nv)); r.shuffle(p)
    cells = [[p[v] for v in c] for c in cells]
    for c in cells: r.shuffle(c)
    r.shuffle(cells)
    return nv, cells

def mesh(r, D, big):
    k = r.random()
    if D == 2:
        if k < .2: nv, c = r.choice(CLOSED2)
        elif k < .3: nv, c = grid2(r, 3, 3, True)
        else:
            nv, c = grid2(r, r.randint(2, 5 if big else 4), r.randint(2, 4))
            if r.random() < .4: c = r.sample(c, r.randint(1, len(c)))
    else:
        if k < .2: nv, c = 4, [[0,1,2,3]]
        elif k < .3: nv, c = CLOSED3[0]
        else:
            nv, c = grid3(2, 2, 3 if big and r.random() < .4 else 2)
            if r.random() < .5: c = r.sample(c, r.randint(1, len(c)))
    return scramble(r, nv, [list(x) for x in c], r.choice([0, 0, 0, 1, 2]))

def cases(ctx):
    r = ctx.rng; out = []; big = not ctx.quick
    for i in range(48 if ctx.quick else 200):
        D = 2 if i % 3 else 3
        nv, c = mesh(r, D, big)
        mode = (0, 0, 1, 2, 3)[(i // 3) % 5] if D == 2 else (0, 0, 2, 3)[(i // 3) % 4]
        ops = []
        for d in range(D + 2):
            ops.append(J("slab", d, r.choice([0, 0, 1, 3, 6])))
            if d <= D and d > 0:
                ops.append(J("for", d, r.randint(0, 3), 1, r.choice([1, 2, 3])))
                ops.append(J("for", d, r.randint(0, 3), 2, r.choice([1, 2, 5])))
            if d >= 2: ops.append(J("rel", d, r.choice([0, 1, 2])))
        out.append(J(i, D, mode, nv, len(c), " ".join(J(x) for x in c), len(ops), " ".join(ops)))
    return out

def check(ctx):
    ctx.model("MCUMesh", "MCUMesh.cfg" if ctx.quick else "MCUMesh3.cfg")
    ctx.model("MCUMesh", "MCUMeshNeg.cfg", expect_violation="Complete is violated")
    exe = ctx.build("umesh", have=HAVE, libs=LIBS)
    recs = ctx.run_cases(exe, cases(ctx), "umesh")
    ctx.validate("UMeshTrace", recs, "Trace.cfg")
    ctx.assumptions += ["a triangle mesh has at most two triangles on an edge", "the partitioned variant needs METIS, which is not installed: not explored"]
