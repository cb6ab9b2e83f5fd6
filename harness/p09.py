"""Cropping and resampling of the voxel structure."""

from .common import H, lin, orders, subset, total, unlin
from .p07 import perm

BOUNDS = ("all voxel subsets of the grids 2x2x1, 3x1x1, 1x2x2, 1x1x4 and fixed subsets of 3x2x2, 4x3x2, 3x3x3, up to 3 domains, resampling factors 1-3 per axis "
          "(solver choices); voxel dimensions and centre symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "at least one voxel is not empty if the structure is cropped"]


def h_resampling(ctx, n, dom, reduce, resample, fac, kind):
    vr = ctx.load("pypeec.lib_mesher.voxel_resampling")
    pool = list(range(n[0]*n[1]*n[2]))
    if dom == "any":
        sel = subset(ctx, "s", pool, 1)
        # the voxels are distributed over two domains
        dom = {"a": sel[0::2][::-1], "b": sel[1::2], "e": []}
    elif dom == "split":
        own = [ctx.conc(ctx.int("own%d" % v, 0, 2)) for v in pool]
        dom = {"a": [v for v in pool if own[v] == 1], "b": [v for v in pool if own[v] == 2][::-1]}
        if not dom["a"]+dom["b"]:
            ctx.assume(False)
    if fac == "any":
        fac = [ctx.conc(ctx.int("r"+a, 1, 2)) for a in "xyz"]
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    c = [ctx.real("c"+a) for a in "xyz"]
    dd = {t: ctx.arr(v, "i") for (t, v) in dom.items()}
    kind = {"list": list, "tuple": tuple}[kind]
    opt = {"use_reduce": reduce, "use_resample": resample, "resampling_factor": list(fac)}
    (n2, d2, c2, s2, dom2) = vr.get_resampling(kind(n), kind(d), kind(c), dd, opt)
    n2 = ctx.ints(n2)
    (d2, c2, s2) = (ctx.lst(d2), ctx.lst(c2), ctx.lst(s2))

    # reference
    r = list(fac) if resample else [1, 1, 1]
    vox = [unlin(v, n) for lst in dom.values() for v in lst]
    lo = [min(p[k] for p in vox) if reduce else 0 for k in range(3)]
    hi = [max(p[k] for p in vox)+1 if reduce else n[k] for k in range(3)]
    n_ref = [(hi[k]-lo[k])*r[k] for k in range(3)]
    ctx.check("number of voxels", n2 == n_ref)
    for k in range(3):
        ctx.eq("voxel size", d2[k]*r[k], d[k])
        ctx.eq("total size", s2[k], d[k]*(hi[k]-lo[k]))
        ctx.eq("centre", c2[k], c[k]-ctx.frac(1, 2)*n[k]*d[k]+ctx.frac(1, 2)*(lo[k]+hi[k])*d[k])
    ctx.check("domain names", sorted(dom2.keys()) == sorted(dom.keys()))
    for (t, lst) in dom.items():
        new = ctx.ints(dom2[t])
        ref = []
        for v in lst:
            p = unlin(v, n)
            for i in range(r[0]):
                for j in range(r[1]):
                    for q in range(r[2]):
                        ref.append(lin((p[0]-lo[0])*r[0]+i, (p[1]-lo[1])*r[1]+j, (p[2]-lo[2])*r[2]+q, n_ref))
        ctx.check("voxels of the domain", sorted(new) == sorted(ref))


HARNESSES = []
for (n, dom) in (((2, 2, 1), "any"), ((3, 1, 1), "split"), ((1, 2, 2), "any"), ((1, 1, 4), "any"), ((2, 1, 2), "split"), ((1, 3, 1), "split")):
    for (u, w) in ((True, True), (True, False), (False, True), (False, False)):
        HARNESSES.append(H("%d%d%d/%s/%d%d" % (*n, dom, u, w), h_resampling, n=n, dom=dom, reduce=u, resample=w,
                           fac=((2, 3, 1), (1, 2, 2), (3, 1, 2))[(sum(n)+n[0]) % 3], kind="list" if w else "tuple"))
F1 = {"a": [7, 4], "b": [5, 11], "e": []}
F2 = {"a": [17, 6], "b": [14], "c": [13, 9]}
F3 = {"a": [13, 14], "b": [22]}
for (n, dom) in (((3, 2, 2), F1), ((4, 3, 2), F2), ((3, 3, 3), F3)):
    for (u, w) in ((True, True), (False, True), (True, False)):
        HARNESSES.append(H("fixed/%d%d%d/%d%d" % (*n, u, w), h_resampling, n=n, dom=dom, reduce=u, resample=w, fac="any" if w else (2, 2, 2), kind="list"))
HARNESSES.append(H("all/222", h_resampling, tier="thorough", n=(2, 2, 2), dom="any", reduce=True, resample=True, fac=(2, 1, 3), kind="list"))
HARNESSES.append(H("all/321", h_resampling, tier="thorough", n=(3, 2, 1), dom="any", reduce=True, resample=True, fac=(1, 3, 2), kind="list"))
HARNESSES.append(H("split/221", h_resampling, tier="thorough", n=(2, 2, 1), dom="split", reduce=True, resample=True, fac="any", kind="list"))
