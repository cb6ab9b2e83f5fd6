"""Magnetic field at the evaluation points."""

from .common import H, axis_of, net, orders, total, unlin, dims
from .p04 import cvec, incidence

BOUNDS = ("up to 5 voxels and 5 faces (2x2x1, 2x1x2, 3x1x1, 1x2x2), up to 3 evaluation points, both Biot-Savart variants, electric and magnetic elements; "
          "coordinates, voxel dimensions, currents and fluxes symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "no evaluation point is at the position of an element (property P14)", "voxel dimensions are positive"]


def cross(a, b):
    return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]


def distance(ctx, name, pts, src):
    """Vectors and (non-zero) distances between points and elements."""
    vec = [[[p[k]-q[k] for k in range(3)] for q in src] for p in pts]
    return vec, [[ctx.sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]) for v in row] for row in vec]


def points(ctx, k):
    return [[ctx.real("p%d%s" % (i, a)) for a in "xyz"] for i in range(k)]


def h_electric(ctx, n, vox, order, n_pts, how):
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    idx_v = orders(vox, order)
    (fac, mat) = net(ctx, n, idx_v)
    d = dims(ctx)
    pts_v = [[ctx.real("v%d%s" % (v, a)) for a in "xyz"] for v in idx_v]
    pts = points(ctx, n_pts)
    x = cvec(ctx, "I", len(fac))
    row = {v: i for (i, v) in enumerate(idx_v)}
    if how == "voxel":
        src = pts_v
        mom = [[d[k]*total([ctx.frac(1, 2)*c for ((f, a, b), c) in zip(fac, x) if v in (a, b) and axis_of(f, n) == k]) for k in range(3)] for v in idx_v]
    else:
        src = [[ctx.frac(1, 2)*(pts_v[row[a]][k]+pts_v[row[b]][k]) for k in range(3)] for (_, a, b) in fac]
        mom = [[d[k]*c if axis_of(f, n) == k else 0 for k in range(3)] for ((f, _, _), c) in zip(fac, x)]
    (vec, nrm) = distance(ctx, "r", pts, src)
    for r in nrm:
        for z in r:
            ctx.assume(z > 0.01 if not ctx.sym else z > 0)
    ref = []
    for (vs, rs) in zip(vec, nrm):
        con = [[c/(4*ctx.pi*r*r*r) for c in cross(m, v)] for (m, v, r) in zip(mom, vs, rs)]
        ref.append([total([c[k] for c in con]) for k in range(3)])
    arg = ctx.arr(x, "c")
    res = ex.get_magnetic_field_electric(n, tuple(d), ctx.arr([f for (f, _, _) in fac], "i"), mat, arg,
                                         ctx.arr(pts_v, "f").reshape((len(idx_v), 3)), ctx.arr(pts, "f").reshape((n_pts, 3)), how)
    ctx.eq("field of the currents", res, ctx.arr(ref, "c").reshape((n_pts, 3)))
    ctx.eq("currents unchanged", arg, ctx.arr(x, "c"))


def h_magnetic(ctx, n, vox, order, n_pts):
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    idx_v = orders(vox, order)
    (fac, mat) = net(ctx, n, idx_v)
    pts_v = [[ctx.real("v%d%s" % (v, a)) for a in "xyz"] for v in idx_v]
    pts = points(ctx, n_pts)
    x = cvec(ctx, "I", len(fac))
    q = incidence(idx_v, fac, x)
    (vec, nrm) = distance(ctx, "r", pts, pts_v)
    for r in nrm:
        for z in r:
            ctx.assume(z > 0.01 if not ctx.sym else z > 0)
    # the flux which flows out of a voxel through its faces is missing in the voxel: negative charge
    ref = []
    for (vs, rs) in zip(vec, nrm):
        ref.append([total([-c*v[k]/(4*ctx.pi*ctx.mu_0*r*r*r) for (c, v, r) in zip(q, vs, rs)]) for k in range(3)])
    res = ex.get_magnetic_field_magnetic(mat, ctx.arr(x, "c"), ctx.arr(pts_v, "f").reshape((len(idx_v), 3)), ctx.arr(pts, "f").reshape((n_pts, 3)))
    ctx.eq("field of the charges", res, ctx.arr(ref, "c").reshape((n_pts, 3)))


HARNESSES = []
CFG = [((2, 1, 1), [1, 0], "up", 1), ((2, 2, 1), [0, 1, 2], "down", 1), ((2, 1, 2), [0, 1, 2, 3], "mix", 1), ((1, 2, 2), [3, 0, 1], "up", 2),
       ((3, 1, 1), [2, 1, 0], "rot", 3), ((2, 2, 2), [0, 1, 2, 4], "up", 2), ((1, 1, 1), [0], "up", 2), ((1, 2, 1), [0, 1], "up", 0)]
for (i, (n, vox, order, k)) in enumerate(CFG):
    for how in ("voxel", "face"):
        HARNESSES.append(H("electric/%d/%s" % (i, how), h_electric, n=n, vox=vox, order=order, n_pts=k, how=how))
    HARNESSES.append(H("magnetic/%d" % i, h_magnetic, n=n, vox=vox, order=order, n_pts=k))
for (n_pts, order) in ((0, "up"), (2, "up")):
    HARNESSES.append(H("magnetic/none/%d" % n_pts, h_magnetic, n=(2, 2, 1), vox=[], order=order, n_pts=n_pts))
