"""Equation system: operators, couplings, right-hand side, and layout of the solution."""

from .common import H, net, orders, total

BOUNDS = ("electric domains up to 4 voxels / 4 faces (2x2x1, 2x1x2, 3x1x1), magnetic domains up to 3 voxels or empty, up to 2 current and "
          "2 voltage source voxels at arbitrary voxels (symbolic positions); all coefficients, the frequency (DC and AC), and the vectors symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "source voxels are distinct and electric (property P24)",
               "the dense operators are arbitrary matrices"]


def matvec(m, x):
    return [total([a*b for (a, b) in zip(r, x)]) for r in m]


def dense(ctx, name, k, q, real=False):
    f = ctx.real if real else ctx.cplx
    return [[f("%s%d_%d" % (name, i, j)) for j in range(q)] for i in range(k)]


def cvec(ctx, name, k):
    return [ctx.cplx("%s%d" % (name, i)) for i in range(k)]


def operator(ctx, m):
    def op(x):
        x = ctx.lst(x)
        assert len(m) == 0 or len(x) == len(m[0])
        return ctx.arr(matvec(m, x), "c")
    return op


def frequency(ctx, kind):
    if kind == "dc":
        return ctx.num(0.0)
    if kind == "ac":
        return ctx.real("f", pos=True)
    return ctx.real("f", lo=0)


def terminals(ctx, vc, n_c, n_v, fixed=None):
    """Distinct source voxels: positions in the list of electric voxels chosen by the solver."""
    if fixed is not None:
        pos = list(fixed)
    else:
        pos = [ctx.int("src%d" % i, 0, len(vc)-1) for i in range(n_c+n_v)]
        for i in range(len(pos)):
            for j in range(i):
                ctx.assume(pos[i] != pos[j])
        pos = [ctx.conc(p) for p in pos]
    vox = [vc[p] for p in pos]
    return vox[:n_c], vox[n_c:], pos


def problem(ctx, n, vc, vm):
    vc = list(vc)
    vm = list(vm)
    (fc, ac) = net(ctx, n, vc)
    (fm, am) = net(ctx, n, vm)
    return vc, vm, fc, fm, ac, am


def incidence(vox, fac, x_f):
    """Outgoing flow of each voxel."""
    return [total([x for ((_, a, b), x) in zip(fac, x_f) if a == v]) - total([x for ((_, a, b), x) in zip(fac, x_f) if b == v]) for v in vox]


def h_system(ctx, n, vc, vm, n_c, n_v, freq, fixed=None):
    es = ctx.load("pypeec.lib_solver.equation_system")
    (vc, vm, fc, fm, ac, am) = problem(ctx, n, vc, vm)
    (sc, sv, pos) = terminals(ctx, vc, n_c, n_v, fixed)
    f = frequency(ctx, freq)
    s = ctx.j*2*ctx.pi*f
    (nf, nv, mf, mv, ns) = (len(fc), len(vc), len(fm), len(vm), n_c+n_v)
    r_c = cvec(ctx, "Rc", nf)
    r_m = cvec(ctx, "Rm", mf)
    lm = dense(ctx, "L", nf, nf, True)
    pm = dense(ctx, "P", mv, mv, True)
    kc = dense(ctx, "Kc", nf, mf, True)
    km = dense(ctx, "Km", mf, nf, True)
    i_src = cvec(ctx, "Isrc", n_c)
    y_src = cvec(ctx, "Y", n_c)
    v_src = cvec(ctx, "Vsrc", n_v)
    z_src = cvec(ctx, "Z", n_v)

    idx = [ctx.arr(x, "i") for x in (vc, vm, [q[0] for q in fc], [q[0] for q in fm], sc, sv)]
    rhs = es.get_source_vector(idx[0], idx[1], idx[2], idx[3], ctx.arr(i_src, "c"), ctx.arr(v_src, "c"))
    a_src = es.get_source_matrix(idx[0], idx[4], idx[5], ctx.arr(y_src, "c"), ctx.arr(z_src, "c"))
    cpl = es.get_coupling_operator(f, ac, am, a_src, operator(ctx, kc), operator(ctx, km))
    sys = es.get_system_operator(f, ac, am, a_src, ctx.arr(r_c, "c"), ctx.arr(r_m, "c"), operator(ctx, lm), operator(ctx, pm))
    lay = es.get_system_sol_idx(ac, am, a_src)

    # arbitrary solution
    x_fc = cvec(ctx, "Ifc", nf)
    x_vc = cvec(ctx, "Vvc", nv)
    x_src = cvec(ctx, "Is", ns)
    x_fm = cvec(ctx, "Ifm", mf)
    x_vm = cvec(ctx, "Vvm", mv)
    sol_c = ctx.arr(x_fc+x_vc+x_src, "c")
    sol_m = ctx.arr(x_fm+x_vm, "c")

    # residual of the documented equations
    lx = matvec(lm, x_fc)
    kx = matvec(kc, x_fm)
    ky = matvec(km, x_fc)
    row = {v: i for (i, v) in enumerate(vc)}
    rom = {v: i for (i, v) in enumerate(vm)}
    own = [r_c[i]*x_fc[i]+s*lx[i]-(x_vc[row[a]]-x_vc[row[b]]) for (i, (_, a, b)) in enumerate(fc)]
    cpc = [s*k for k in kx]
    inj = [total([x for (x, w) in zip(x_src, sc+sv) if w == v]) for v in vc]
    own += [a-b for (a, b) in zip(incidence(vc, fc, x_fc), inj)]
    own += [x_src[i]+y_src[i]*x_vc[row[v]] for (i, v) in enumerate(sc)]
    own += [z_src[i]*x_src[n_c+i]+x_vc[row[v]] for (i, v) in enumerate(sv)]
    ctx.eq("electric equations", sys[0](sol_c), ctx.arr(own, "c"))
    ctx.eq("coupling into the electric equations", cpl[0](sol_m), ctx.arr(cpc+[0]*(nv+ns), "c"))
    owm = [r_m[i]*x_fm[i]-(x_vm[rom[a]]-x_vm[rom[b]]) for (i, (_, a, b)) in enumerate(fm)]
    owm += [a+b for (a, b) in zip(matvec(pm, incidence(vm, fm, x_fm)), x_vm)]
    ctx.eq("magnetic equations", sys[1](sol_m), ctx.arr(owm, "c"))
    ctx.eq("coupling into the magnetic equations", cpl[1](sol_c), ctx.arr([-k for k in ky]+[0]*mv, "c"))
    ctx.eq("electric right-hand side", rhs[0], ctx.arr([0]*(nf+nv)+i_src+v_src, "c"))
    ctx.eq("magnetic right-hand side", rhs[1], ctx.arr([0]*(mf+mv), "c"))

    # the layout splits the complete solution
    sol = ctx.np.concatenate((sol_c, sol_m))
    for (k, x) in (("I_fc", x_fc), ("V_vc", x_vc), ("I_src", x_src), ("I_fm", x_fm), ("V_vm", x_vm)):
        ctx.eq("solution part %s" % k, sol[lay[k]], ctx.arr(x, "c"))
    # the operators do not change the vectors
    ctx.eq("solution unchanged", ctx.np.concatenate((sol_c, sol_m)), ctx.arr(x_fc+x_vc+x_src+x_fm+x_vm, "c"))
    ctx.eq("electric equations (again)", sys[0](sol_c), ctx.arr(own, "c"))


HARNESSES = []
CFG = [
    ((2, 2, 1), [2, 0, 3, 1], [1, 3, 0]),
    ((2, 1, 2), [0, 1, 2], [3, 1]),
    ((3, 1, 1), [2, 1, 0], []),
    ((1, 2, 2), [3, 0], [2, 1, 3]),
    ((1, 1, 2), [1], [0]),
]
for (i, (n, vc, vm)) in enumerate(CFG):
    for (n_c, n_v) in ((1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)):
        if n_c+n_v > len(vc):
            continue
        for freq in ("any", "dc"):
            HARNESSES.append(H("system/%d/%dI%dV/%s" % (i, n_c, n_v, freq), h_system, n=n, vc=vc, vm=vm, n_c=n_c, n_v=n_v, freq=freq))
HARNESSES.append(H("system/222", h_system, n=(2, 2, 2), vc=[5, 0, 4, 1, 7, 3], vm=[2, 6, 7, 3], n_c=2, n_v=1, freq="any", fixed=(4, 0, 2)))
