"""Preconditioner: exact inverse of its simplified system."""

from .common import H, total
from .p04 import problem, terminals, cvec, frequency, incidence

BOUNDS = ("electric domains up to 4 voxels / 4 faces with up to 2 current and 2 voltage source voxels at arbitrary positions, magnetic domains "
          "up to 4 voxels or empty; all impedances, diagonal inductances, potential coefficient, frequency (DC and AC), and right-hand sides symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point",
               "the factorisation library returns a solution of the given sparse system (SuperLU: contract instead of code)",
               "the face impedances are not zero"]


def splu(ctx):
    """Contract of the sparse LU factorisation: any x with mat*x = rhs."""
    cnt = [0]

    class Fact:
        def __init__(self, mat):
            self.mat = mat.copy()

        def solve(self, rhs, trans="N"):
            cnt[0] += 1
            n = self.mat.shape[0]
            x = ctx.arr(cvec(ctx, "~lu%d_" % cnt[0], n), "c")
            r = self.mat*x
            for (a, b) in zip(ctx.lst(r), ctx.lst(rhs)):
                ctx.assume(ctx.eq_cond(ctx.arr([a], "c"), ctx.arr([b], "c")))
            return x
    return lambda mat, *a, **k: Fact(mat)


def h_cond(ctx, n, vc, vm, n_c, n_v, freq, fixed=None):
    ctx.hook_sparse("splu", splu(ctx))
    es = ctx.load("pypeec.lib_solver.equation_system")
    mf = ctx.load("pypeec.lib_matrix.matrix_factorization")
    mf.set_options({"library": "SuperLU", "pyamg_options": {}, "pardiso_options": {}})
    (vc, vm, fc, fm, ac, am) = problem(ctx, n, vc, vm)
    (sc, sv, pos) = terminals(ctx, vc, n_c, n_v, fixed)
    f = frequency(ctx, freq)
    s = ctx.j*2*ctx.pi*f
    # passive faces: positive resistance
    r_c = [ctx.real("Rc%d" % i, pos=True) for i in range(len(fc))]
    x_c = [ctx.real("Xc%d" % i) for i in range(len(fc))]
    r_m = [ctx.real("Rm%d" % i, pos=True) for i in range(len(fm))]
    x_m = [ctx.real("Xm%d" % i) if freq != "any" else 0 for i in range(len(fm))]
    l_c = [ctx.real("L%d" % i) for i in range(len(fc))]
    p_m = ctx.real("P")
    rc = [a+ctx.j*b for (a, b) in zip(r_c, x_c)]
    rm = [a+ctx.j*b for (a, b) in zip(r_m, x_m)]
    y = cvec(ctx, "Y", n_c)
    z = cvec(ctx, "Z", n_v)
    idx = [ctx.arr(x, "i") for x in (vc, sc, sv)]
    a_src = es.get_source_matrix(idx[0], idx[1], idx[2], ctx.arr(y, "c"), ctx.arr(z, "c"))
    (ex, ret) = ctx.raises(es.get_cond_operator, f, ac, am, a_src, ctx.arr(rc, "c"), ctx.arr(rm, "c"),
                                        ctx.arr(l_c, "c") if fc else ctx.np.nan, p_m if vm else ctx.np.nan)
    if ex is not None:
        # a singular system has no factorisation
        ctx.assume("singular" not in str(ex) and "factorization" not in str(ex))
        raise ex
    (fct, s_mat) = ret
    ns = n_c+n_v
    row = {v: i for (i, v) in enumerate(vc)}
    rom = {v: i for (i, v) in enumerate(vm)}

    b = cvec(ctx, "b", len(fc)+len(vc)+ns)
    sol = ctx.lst(fct[0](ctx.arr(b, "c")))
    ctx.check("size of the electric solution", len(sol) == len(b))
    (nf, nv) = (len(fc), len(vc))
    (x_f, x_v, x_s) = (sol[:nf], sol[nf:nf+nv], sol[nf+nv:])
    for (i, (_, a, c)) in enumerate(fc):
        ctx.eq("electric KVL", ctx.arr([(rc[i]+s*l_c[i])*x_f[i]-(x_v[row[a]]-x_v[row[c]])], "c"), ctx.arr([b[i]], "c"))
    inj = [total([x for (x, w) in zip(x_s, sc+sv) if w == v]) for v in vc]
    for (i, (a, c)) in enumerate(zip(incidence(vc, fc, x_f), inj)):
        ctx.eq("electric KCL", ctx.arr([a-c], "c"), ctx.arr([b[nf+i]], "c"))
    for (i, v) in enumerate(sc):
        ctx.eq("current source", ctx.arr([x_s[i]+y[i]*x_v[row[v]]], "c"), ctx.arr([b[nf+nv+i]], "c"))
    for (i, v) in enumerate(sv):
        ctx.eq("voltage source", ctx.arr([z[i]*x_s[n_c+i]+x_v[row[v]]], "c"), ctx.arr([b[nf+nv+n_c+i]], "c"))

    g = cvec(ctx, "g", len(fm)+len(vm))
    sol = ctx.lst(fct[1](ctx.arr(g, "c")))
    ctx.check("size of the magnetic solution", len(sol) == len(g))
    nf = len(fm)
    (x_f, x_v) = (sol[:nf], sol[nf:])
    for (i, (_, a, c)) in enumerate(fm):
        ctx.eq("magnetic KVL", ctx.arr([rm[i]*x_f[i]-(x_v[rom[a]]-x_v[rom[c]])], "c"), ctx.arr([g[i]], "c"))
    for (i, a) in enumerate(incidence(vm, fm, x_f)):
        ctx.eq("magnetic KCL", ctx.arr([p_m*a+x_v[i]], "c"), ctx.arr([g[nf+i]], "c"))


CFG = [
    ((2, 2, 1), [2, 0, 3, 1], [1, 3, 0, 2], (1, 1)),
    ((2, 1, 2), [0, 1, 2], [3, 1], (1, 0)),
    ((3, 1, 1), [2, 1, 0], [], (0, 1)),
    ((1, 2, 2), [3, 0], [2, 1, 3], (1, 1)),
    ((1, 1, 2), [1], [0], (1, 0)),
    ((1, 3, 1), [0, 2, 1], [0, 1], (1, 2)),
    ((1, 1, 3), [0, 2, 1], [0, 1, 2], (2, 1)),
]
HARNESSES = []
for (i, (n, vc, vm, (n_c, n_v))) in enumerate(CFG):
    for freq in ("dc", "ac"):
        HARNESSES.append(H("cond/%d/%s" % (i, freq), h_cond, n=n, vc=vc, vm=vm, n_c=n_c, n_v=n_v, freq=freq))
