"""Points for the evaluation of the magnetic field."""

import itertools
from .common import H, unlin

BOUNDS = ("up to 3 points and 3 non-empty voxels (grids 2x2x2, 3x2x1, 1x1x4) in up to 2 domains; coordinates, voxel dimensions and centre symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "voxel dimensions are positive"]


def h_points(ctx, n, dom, n_pts, check, full):
    vp = ctx.load("pypeec.lib_mesher.voxel_point")
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    c = [ctx.real("c"+a) for a in "xyz"]
    pts = [[ctx.real("p%d%s" % (i, a)) for a in "xyz"] for i in range(n_pts)]
    vox = [unlin(v, n) for lst in dom.values() for v in lst]
    half = ctx.frac(1, 2)
    ctr = [[c[k]+(p[k]+half-half*n[k])*d[k] for k in range(3)] for p in vox]
    # the point is strictly outside / clearly away (more than one voxel dimension from the centre along one axis)
    eps = 0 if ctx.sym else 1e-9
    out = [ctx.And(True, *[ctx.Or(*[ctx.abs(p[k]-q[k]) > half*d[k]-eps for k in range(3)]) for q in ctr]) for p in pts]
    far = [ctx.And(True, *[ctx.Or(*[ctx.abs(p[k]-q[k]) > d[k]+eps for k in range(3)]) for q in ctr]) for p in pts]
    dd = {t: ctx.arr(v, "i") for (t, v) in dom.items()}
    opt = {"check_cloud": check, "full_cloud": full, "pts_cloud": [list(p) for p in pts]}
    (err, res) = ctx.raises(vp.get_point, list(n), list(d), list(c), dd, opt)
    if err is not None:
        ctx.check("error without a complete cloud", check and full)
        ctx.check("error without a point at a voxel", ctx.Not(ctx.And(True, *far)))
        return
    rows = len(res)
    res = ctx.lst(res)
    ctx.check("three coordinates", len(res) == 3*rows)
    if full or not check:
        ctx.check("number of points", rows == n_pts)
        ctx.eq("points unchanged", res, [x for p in pts for x in p])
        if check:
            ctx.check("points are outside of the voxels", ctx.And(True, *out))
        return
    cases = []
    for sel in itertools.combinations(range(n_pts), rows):
        same = [ctx.eq_cond(res[3*i+k], pts[j][k]) for (i, j) in enumerate(sel) for k in range(3)]
        cases.append(ctx.And(True, *same, *[out[j] for j in sel], *[ctx.Not(far[j]) for j in range(n_pts) if j not in sel]))
    ctx.check("kept points are outside of the voxels, in order, and complete", ctx.Or(*cases))


HARNESSES = []
CFG = [((2, 2, 2), {"a": [1], "b": [6]}, 1), ((3, 2, 1), {"a": [2, 0]}, 2), ((1, 1, 4), {"a": [1], "b": [2]}, 2), ((2, 1, 2), {"a": [3]}, 3),
       ((2, 2, 1), {"a": []}, 2), ((2, 2, 2), {"a": [5, 0, 3]}, 1)]
for (i, (n, dom, k)) in enumerate(CFG):
    for (check, full) in ((True, False), (True, True), (False, False), (False, True)):
        HARNESSES.append(H("%d/%d%d" % (i, check, full), h_points, n=n, dom=dom, n_pts=k, check=check, full=full))
HARNESSES.append(H("none/10", h_points, n=(2, 1, 1), dom={"a": [0]}, n_pts=0, check=False, full=False))
HARNESSES.append(H("big/10", h_points, tier="thorough", n=(2, 3, 2), dom={"a": [1, 5], "b": [8]}, n_pts=3, check=True, full=False))
