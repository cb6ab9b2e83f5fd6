"""Physical scaling and reciprocity of the system matrices."""

from .common import H, axis_of, net, orders, subset, dims, total
from .p01 import tensor, coeff, FFT

BOUNDS = ("grids up to 2x2x2, 3x1x2 (fixed voxel sets in several orders) and all voxel subsets of 2x2x1 and 3x1x1; voxel dimensions, "
          "resistivities, Green tensors, vectors, and vacuum permeability symbolic; direct and FFT (NumPy, split) products")
ASSUMPTIONS = ["real arithmetic in place of floating point", "voxel dimensions and vacuum permeability are positive",
               "the matrix-vector operators are those of property P01",
               "the incidence matrix of the harness is the one of property P03"]


def options(ctx, mt):
    if mt == "fft":
        ctx.load("pypeec.lib_matrix.multiply_fft").set_options(dict(FFT, library="NumPy"))
        ctx.load("pypeec.lib_matrix.fourier_transform").set_options(dict(FFT, library="NumPy"))
    return ctx.load("pypeec.lib_solver.system_matrix")


def voxels(ctx, n, sel, tag="s", least=0):
    """Voxel list: ('all', order), (list, order), or ('any', order) for all the subsets."""
    (what, order) = sel
    pool = list(range(n[0]*n[1]*n[2]))
    if what == "any":
        pool = subset(ctx, tag, pool, least)
    elif what != "all":
        pool = list(what)
    return orders(pool, order)


def cvec(ctx, name, k):
    return [ctx.cplx("%s%d" % (name, i)) for i in range(k)]


def h_inductance(ctx, n, sel, mt):
    sm = options(ctx, mt)
    idx_v = voxels(ctx, n, sel)
    (fac, _) = net(ctx, n, idx_v)
    d = dims(ctx)
    (t, mat) = tensor(ctx, "inductance", n)
    g = ctx.real("g_self")
    idx_f = ctx.arr([f for (f, _, _) in fac], "i")
    (lc, op) = sm.get_inductance_matrix(n, tuple(d), idx_f, g, mat, mt)
    x = cvec(ctx, "x", len(fac))
    res = op(ctx.arr(x, "c"))
    exp, dia = [], []
    for (f, _, _) in fac:
        # flow through the face: cross section normal to its axis
        (a, b) = [d[k] for k in range(3) if k != axis_of(f, n)]
        s = ctx.mu_0/((a*b)*(a*b))
        dia.append(s*g)
        exp.append(s*total([coeff("inductance", n, t, f, h)*v for ((h, _, _), v) in zip(fac, x)]))
    ctx.eq("inductance product", res, ctx.arr(exp, "c"))
    if fac:
        ctx.eq("self inductance", lc, ctx.arr(dia, "c"))
    ctx.eq("second product", op(ctx.arr([3*v for v in x], "c")), ctx.arr([3*v for v in exp], "c"))


def h_potential(ctx, n, sel, mt):
    sm = options(ctx, mt)
    idx_v = voxels(ctx, n, sel)
    d = dims(ctx)
    (t, mat) = tensor(ctx, "potential", n)
    g = ctx.real("g_self")
    (pm, op) = sm.get_potential_matrix(tuple(d), ctx.arr(idx_v, "i"), g, mat, mt)
    x = cvec(ctx, "x", len(idx_v))
    res = op(ctx.arr(x, "c"))
    vol = d[0]*d[1]*d[2]
    s = 1/(ctx.mu_0*vol*vol)
    exp = [s*total([coeff("potential", n, t, i, j)*v for (j, v) in zip(idx_v, x)]) for i in idx_v]
    ctx.eq("potential product", res, ctx.arr(exp, "c"))
    if idx_v:
        ctx.eq("self potential", pm, s*g)


def h_coupling(ctx, n, sel_c, sel_m, mt):
    sm = options(ctx, mt)
    vc = voxels(ctx, n, sel_c, "c")
    vm = voxels(ctx, n, sel_m, "m")
    (fc, ac) = net(ctx, n, vc)
    (fm, am) = net(ctx, n, vm)
    (t, mat) = tensor(ctx, "coupling", n)
    idx_fc = ctx.arr([f for (f, _, _) in fc], "i")
    idx_fm = ctx.arr([f for (f, _, _) in fm], "i")
    (kc, km) = sm.get_coupling_matrix(n, ctx.arr(vc, "i"), ctx.arr(vm, "i"), idx_fc, idx_fm, ac, am, mat, mt)
    nv = n[0]*n[1]*n[2]
    quarter = ctx.num(1)/4

    def k(f, h):
        (a, b) = (axis_of(f[0], n), axis_of(h[0], n))
        if a == b:
            return 0
        return quarter*total([coeff("coupling", n, t, a*nv+v, b*nv+w) for v in f[1:] for w in h[1:]])

    x = cvec(ctx, "x", len(fm))
    y = cvec(ctx, "y", len(fc))
    exp_c = [total([k(f, h)*v for (h, v) in zip(fm, x)]) for f in fc]
    exp_m = [total([k(f, h)*v for (f, v) in zip(fc, y)]) for h in fm]
    ctx.eq("coupling on the electric faces", kc(ctx.arr(x, "c")), ctx.arr(exp_c, "c"))
    ctx.eq("coupling on the magnetic faces", km(ctx.arr(y, "c")), ctx.arr(exp_m, "c"))


def h_resistance(ctx, n, sel):
    pv = ctx.load("pypeec.lib_solver.problem_value")
    idx_v = voxels(ctx, n, sel)
    (fac, a) = net(ctx, n, idx_v)
    d = dims(ctx)
    rho = [[ctx.cplx("r%d_%d" % (i, k)) for k in range(3)] for i in range(len(idx_v))]
    mat = ctx.arr(rho, "c") if idx_v else ctx.np.empty((0, 3), dtype=ctx.np.complex128)
    res = pv.get_resistance_vector(n, tuple(d), a, ctx.arr([f for (f, _, _) in fac], "i"), mat)
    pos = {v: i for (i, v) in enumerate(idx_v)}
    exp = []
    for (f, v, w) in fac:
        k = axis_of(f, n)
        (p, q) = [d[m] for m in range(3) if m != k]
        exp.append(d[k]/(p*q)*(rho[pos[v]][k]+rho[pos[w]][k])/2)
    ctx.eq("face resistance", res, ctx.arr(exp, "c"))


HARNESSES = []
for mt in ("fft", "direct"):
    for (n, sel) in (((2, 2, 2), ("all", "mix")), ((3, 1, 2), ([0, 1, 3, 4, 5], "down")), ((1, 3, 2), ([0, 1, 2, 4], "mix")),
                     ((2, 1, 3), ([1, 3, 4, 5, 2], "up")), ((2, 2, 1), ("any", "mix"))):
        tag = "%d%d%d/%s" % (*n, mt)
        HARNESSES.append(H("inductance/"+tag, h_inductance, n=n, sel=sel, mt=mt))
        HARNESSES.append(H("potential/"+tag, h_potential, n=n, sel=sel, mt=mt))
    for (n, c, m) in (((2, 2, 2), ("all", "mix"), ("all", "down")),
                      ((2, 3, 1), ([0, 1, 2, 3], "mix"), ([4, 5, 3], "up")),
                      ((1, 2, 3), ([0, 1, 2, 4], "rot"), ([5, 3, 1], "up")),
                      ((3, 1, 2), ([5, 4, 1, 0], "up"), ([2, 1, 0, 3], "up")),
                      ((2, 2, 2), ([0, 1, 2, 3], "mix"), ([4, 5, 6, 7], "down"))):
        HARNESSES.append(H("coupling/%d%d%d/%d/%s" % (*n, len(m[0]), mt), h_coupling, n=n, sel_c=c, sel_m=m, mt=mt))
    HARNESSES.append(H("coupling_any_c/%s" % mt, h_coupling, n=(2, 2, 1), sel_c=("any", "mix"), sel_m=([3, 1, 0], "up"), mt=mt))
    HARNESSES.append(H("coupling_any_m/%s" % mt, h_coupling, n=(1, 2, 2), sel_c=([0, 2, 1, 3], "up"), sel_m=("any", "down"), mt=mt))
    HARNESSES.append(H("coupling_any/%s" % mt, h_coupling, tier="thorough", n=(2, 1, 2), sel_c=("any", "mix"), sel_m=("any", "down"), mt=mt))
    HARNESSES.append(H("coupling_any222/%s" % mt, h_coupling, tier="thorough", n=(2, 2, 2), sel_c=("any", "mix"), sel_m=([7, 5, 4, 1], "down"), mt=mt))
    HARNESSES.append(H("inductance_any/%s" % mt, h_inductance, tier="thorough", n=(2, 2, 2), sel=("any", "mix"), mt=mt))
    HARNESSES.append(H("potential_any/%s" % mt, h_potential, tier="thorough", n=(2, 2, 2), sel=("any", "mix"), mt=mt))
for (n, sel) in (((2, 2, 2), ("any", "mix")), ((3, 2, 2), ("all", "down")), ((1, 2, 3), ("any", "rot")), ((3, 1, 2), ("any", "down"))):
    HARNESSES.append(H("resistance/%d%d%d" % n, h_resistance, n=n, sel=sel))
