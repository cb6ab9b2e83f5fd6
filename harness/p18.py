"""Voxel index utilities."""

from .common import H, lin, total

BOUNDS = "up to 3 indices per call, unbounded symbolic indices; grids of symbolic size 1..4 per axis (linear) and fixed non-cubic sizes (tensor)"
ASSUMPTIONS = []


def inside(ctx, p, n):
    return ctx.And(*[ctx.And(0 <= p[k], p[k] < n[k]) for k in range(3)])


def grid(ctx, n):
    if n == "any":
        return [ctx.int("n"+a, 1, 4) for a in "xyz"]
    return list(n)


def h_linear(ctx, n, k):
    ut = ctx.load("pypeec.utils.voxel")
    n = grid(ctx, n)
    idx = [[ctx.int("i%d%s" % (q, a), -3, 9) for a in "xyz"] for q in range(k)]
    arg = [list(p) for p in idx]
    (err, res) = ctx.raises(ut.get_idx_linear, tuple(n), arg)
    ok = ctx.And(True, *[inside(ctx, p, n) for p in idx])
    if err is not None:
        ctx.check("indices in the grid are accepted", ctx.Not(ok))
        return
    ctx.check("indices outside of the grid are rejected", ok)
    ctx.eq("linear indices", res, ctx.arr([p[0]+n[0]*p[1]+n[0]*n[1]*p[2] for p in idx], "i"))
    ctx.eq("argument unchanged", [x for p in arg for x in p], [x for p in idx for x in p])


def h_tensor(ctx, n, k):
    ut = ctx.load("pypeec.utils.voxel")
    n = [ctx.conc(x) for x in grid(ctx, n)]
    nv = n[0]*n[1]*n[2]
    idx = [ctx.int("i%d" % q, -3, nv+3) for q in range(k)]
    (err, res) = ctx.raises(ut.get_idx_tensor, tuple(n), list(idx))
    ok = ctx.And(True, *[ctx.And(0 <= v, v < nv) for v in idx])
    if err is not None:
        ctx.check("indices in the grid are accepted", ctx.Not(ok))
        return
    ctx.check("indices outside of the grid are rejected", ok)
    r = ctx.lst(res)
    ctx.check("three indices", len(r) == 3*k)
    for (q, v) in enumerate(idx):
        p = r[3*q:3*q+3]
        ctx.check("index in the grid", inside(ctx, p, n))
        ctx.check("tensor indices", p[0]+n[0]*p[1]+n[0]*n[1]*p[2] == v)
    back = ut.get_idx_linear(tuple(n), res)
    ctx.eq("linear indices of the tensor indices", back, ctx.arr(idx, "i"))


def h_agree(ctx, n):
    """The numbering is the one of the solver and of the mesher (voxel positions)."""
    ut = ctx.load("pypeec.utils.voxel")
    vg = ctx.load("pypeec.lib_solver.voxel_geometry")
    v = ctx.conc(ctx.int("v", 0, n[0]*n[1]*n[2]-1))
    p = ctx.ints(ut.get_idx_tensor(n, [v]))
    ctx.check("numbering", lin(*p, n) == v)
    ctx.check("inverse", ctx.ints(ut.get_idx_linear(n, [p])) == [v])
    pts = vg.get_voxel_coordinate(n, (1.0, 1.0, 1.0), (0.0, 0.0, 0.0))
    ctx.eq("position of the voxel in the solver", pts[v], ctx.arr([ctx.frac(2*p[k]+1-n[k], 2) for k in range(3)], "f"))


HARNESSES = []
for k in (1, 2, 3):
    HARNESSES.append(H("linear/any/%d" % k, h_linear, n="any", k=k))
    HARNESSES.append(H("tensor/any/%d" % k, h_tensor, n="any" if k < 3 else (3, 1, 2), k=k))
for n in ((2, 3, 5), (5, 2, 3), (4, 1, 7), (1, 6, 2)):
    HARNESSES.append(H("linear/%d%d%d" % n, h_linear, n=n, k=2))
    HARNESSES.append(H("tensor/%d%d%d" % n, h_tensor, n=n, k=2))
    HARNESSES.append(H("agree/%d%d%d" % n, h_agree, n=n))
HARNESSES.append(H("tensor/deep", h_tensor, tier="thorough", n="any", k=3))
HARNESSES.append(H("tensor/large", h_tensor, tier="thorough", n=(11, 7, 13), k=3))
HARNESSES.append(H("linear/large", h_linear, tier="thorough", n=(5, 7, 9), k=4))
