"""Voxel coordinates, incidence matrix, and reduction to the selected voxels."""

from .common import H, all_vox, faces_of, lin, orders, subset, dims
from .p02 import voxels

BOUNDS = ("grids up to 3x3x2 for the full incidence matrix and coordinates, all voxel subsets (and the empty one) of 2x2x2, 3x2x1, "
          "1x3x2 in several orders; voxel dimensions, grid centre, and coordinates symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point"]


def h_coordinate(ctx, n):
    vg = ctx.load("pypeec.lib_solver.voxel_geometry")
    d = dims(ctx)
    c = [ctx.real("c"+a) for a in "xyz"]
    pts = vg.get_voxel_coordinate(n, tuple(d), tuple(c))
    # centre of the cell (ix, iy, iz); the complete grid is centred on c
    exp = [[c[k]+(2*p[k]+1-n[k])*d[k]/2 for k in range(3)] for p in all_vox(n)]
    ctx.eq("voxel coordinates", pts, ctx.arr(exp, "f"))


def h_incidence(ctx, n):
    vg = ctx.load("pypeec.lib_solver.voxel_geometry")
    a = vg.get_incidence_matrix(n)
    nv = n[0]*n[1]*n[2]
    ctx.check("shape of the incidence matrix", tuple(a.shape) == (nv, 3*nv))
    m = [[0]*(3*nv) for _ in range(nv)]
    for v in range(nv):
        for k in range(3):
            m[v][k*nv+v] = 1
    for (f, v, w) in faces_of(n, set(range(nv))):
        m[w][f] = -1
    ctx.eq("incidence matrix", a.toarray(), ctx.arr(m, "i"))
    # position of an arbitrary entry
    i = ctx.int("row", 0, nv-1)
    j = ctx.int("col", 0, 3*nv-1)
    e = a.toarray()[i, j]
    (k, v) = (j//nv, j % nv)
    st = ctx.If(k == 0, 1, ctx.If(k == 1, n[0], n[0]*n[1]))
    pos = ctx.If(k == 0, v % n[0], ctx.If(k == 1, (v//n[0]) % n[1], v//(n[0]*n[1])))
    nk = ctx.If(k == 0, n[0], ctx.If(k == 1, n[1], n[2]))
    exp = ctx.If(i == v, 1, ctx.If(ctx.And(i == v+st, pos+1 < nk), -1, 0))
    ctx.eq("incidence entry", e, exp)


def h_reduce(ctx, n, sel, real):
    vg = ctx.load("pypeec.lib_solver.voxel_geometry")
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    nv = n[0]*n[1]*n[2]
    idx_v = voxels(ctx, n, sel)
    if real:
        d = dims(ctx)
        c = [ctx.real("c"+a) for a in "xyz"]
        pts = vg.get_voxel_coordinate(n, tuple(d), tuple(c))
    else:
        pts = ctx.arr([[ctx.real("p%d_%d" % (v, k)) for k in range(3)] for v in range(nv)], "f")
    a = vg.get_incidence_matrix(n)
    p0 = ctx.lst(pts)
    (pn, an, idx_f) = pg.get_reduce_matrix(pts, a, ctx.arr(idx_v, "i"))
    fac = faces_of(n, set(idx_v))
    ctx.eq("indices of the internal faces", idx_f, ctx.arr([f for (f, _, _) in fac], "i"))
    ctx.check("shape of the reduced matrix", tuple(an.shape) == (len(idx_v), len(fac)))
    m = [[0]*len(fac) for _ in idx_v]
    row = {v: i for (i, v) in enumerate(idx_v)}
    for (j, (_, v, w)) in enumerate(fac):
        m[row[v]][j] = 1
        m[row[w]][j] = -1
    if idx_v and fac:
        ctx.eq("reduced incidence matrix", an.toarray(), ctx.arr(m, "i"))
    exp = [p0[3*v+k] for v in idx_v for k in range(3)]
    ctx.check("shape of the coordinates", tuple(pn.shape) == (len(idx_v), 3))
    ctx.eq("coordinates of the selected voxels", ctx.arr(ctx.lst(pn), "f"), ctx.arr(exp, "f"))


HARNESSES = []
for n in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 1), (3, 1, 2), (1, 3, 2), (2, 2, 2), (2, 3, 4), (3, 3, 2), (4, 2, 3)):
    HARNESSES.append(H("coordinate/%d%d%d" % n, h_coordinate, n=n))
    if n[0]*n[1]*n[2] <= 18:
        HARNESSES.append(H("incidence/%d%d%d" % n, h_incidence, n=n, tier="quick" if n[0]*n[1]*n[2] <= 8 else "thorough"))
for (n, order) in (((2, 2, 2), "mix"), ((3, 2, 1), "down"), ((1, 3, 2), "rot"), ((3, 1, 2), "up"), ((1, 1, 4), "mix")):
    HARNESSES.append(H("reduce/%d%d%d" % n, h_reduce, n=n, sel=("any", order), real=False))
HARNESSES.append(H("reduce_coord/221", h_reduce, n=(2, 2, 1), sel=("any", "mix"), real=True))
HARNESSES.append(H("reduce_all/332", h_reduce, n=(3, 3, 2), sel=("all", "mix"), real=True))
HARNESSES.append(H("reduce_any/232", h_reduce, tier="thorough", n=(2, 3, 2), sel=("any", "mix"), real=False))
