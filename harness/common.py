"""Helpers shared by the harnesses (reference definitions are written here, independently of the code)."""


def H(hname, fct, /, tier="quick", **params):
    extra = {k[1:]: params.pop(k) for k in list(params) if k.startswith("_")}
    return dict(name=hname, fct=fct, tier=tier, params=params, **extra)


def lin(ix, iy, iz, n):
    return ix+iy*n[0]+iz*n[0]*n[1]


def unlin(v, n):
    return v % n[0], (v//n[0]) % n[1], v//(n[0]*n[1])


def all_vox(n):
    return [unlin(v, n) for v in range(n[0]*n[1]*n[2])]


def faces_of(n, sel):
    """Internal faces of a voxel set: list of (face index, voxel minus, voxel plus), in face order."""
    nv = n[0]*n[1]*n[2]
    st = (1, n[0], n[0]*n[1])
    out = []
    for ax in range(3):
        for v in range(nv):
            p = unlin(v, n)
            if p[ax]+1 < n[ax] and v in sel and v+st[ax] in sel:
                out.append((ax*nv+v, v, v+st[ax]))
    return out


def total(lst):
    r = 0
    for x in lst:
        r = r+x
    return r


def axis_of(f, n):
    return f//(n[0]*n[1]*n[2])


def net(ctx, n, idx_v):
    """Faces of a voxel list and its incidence matrix (rows in the order of the list): (faces, matrix)."""
    fac = faces_of(n, set(idx_v))
    row = {v: i for (i, v) in enumerate(idx_v)}
    dat, r, c = [], [], []
    for (j, (_, a, b)) in enumerate(fac):
        dat += [1, -1]
        r += [row[a], row[b]]
        c += [j, j]
    mat = ctx.sps.csc_matrix((ctx.np.array(dat, dtype=ctx.np.int64), (ctx.np.array(r, dtype=ctx.np.int64), ctx.np.array(c, dtype=ctx.np.int64))),
                             shape=(len(idx_v), len(fac)), dtype=ctx.np.int64)
    return fac, mat


def orders(lst, which):
    """A few different orders of a list."""
    lst = list(lst)
    if which == "up":
        return lst
    if which == "down":
        return lst[::-1]
    if which == "mix":
        return lst[1::2]+lst[0::2]
    if which == "rot":
        return lst[len(lst)//2:]+lst[:len(lst)//2]
    raise ValueError(which)


def subset(ctx, name, pool, least=0):
    """A nondeterministic subset of a list (the solver decides each membership)."""
    out = [v for v in pool if bool(ctx.bool("%s%d" % (name, v)))]
    if len(out) < least:
        ctx.assume(False)
    return out


def dims(ctx, name="d"):
    return [ctx.real(name+a, pos=True) for a in "xyz"]
