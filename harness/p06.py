"""Fields, losses, energies, and the power balance."""

from .common import H, axis_of, dims, net, orders, subset, total
from .p04 import cvec, dense, frequency, incidence, matvec, operator
from . import geom

BOUNDS = ("fields: grids 2x2x2 (6 of 8 voxels), 3x1x2, 1x2x2, and all voxel subsets of 2x2x1 and 3x1x1, in several orders; power balance: electric "
          "domains up to 4 voxels / 4 faces and magnetic domains up to 3 voxels, up to 4 source voxels; dimensions, frequency (DC and AC), "
          "resistances, inductances, potential and coupling coefficients, and the solution symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "voxel dimensions are positive", "inductance and potential matrices are real symmetric "
               "and the coupling matrices transposes of each other (properties P01, P02)", "the equations are those of property P04: the balance is checked "
               "for arbitrary vectors, with the residuals of the equations as explicit correction terms"]


def voxel_list(ctx, n, sel):
    (what, order) = sel
    pool = list(range(n[0]*n[1]*n[2]))
    if what == "any":
        return orders(subset(ctx, "s", pool, 1), order)
    return orders(pool if what == "all" else what, order)


def h_density(ctx, n, sel):
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    idx_v = voxel_list(ctx, n, sel)
    (fac, mat) = net(ctx, n, idx_v)
    d = dims(ctx)
    x = cvec(ctx, "I", len(fac))
    p = [ctx.real("P%d" % i) for i in range(len(fac))]
    idx_f = ctx.arr([f for (f, _, _) in fac], "i")
    var = ctx.arr(x, "c")
    vec = ex.get_vector_density(n, tuple(d), idx_f, mat, var)
    div = ex.get_divergence_density(tuple(d), mat, var)
    sca = ex.get_scalar_density(tuple(d), mat, ctx.arr(p, "f"))
    vol = d[0]*d[1]*d[2]
    area = (d[1]*d[2], d[0]*d[2], d[0]*d[1])
    e_vec, e_div, e_sca = [], [], []
    for v in idx_v:
        # half of the flow of every face belongs to each of both voxels
        e_vec.append([total([v_f for ((f, a, b), v_f) in zip(fac, x) if v in (a, b) and axis_of(f, n) == k])/(2*area[k]) for k in range(3)])
        e_div.append((total([v_f for ((f, a, b), v_f) in zip(fac, x) if v == a])-total([v_f for ((f, a, b), v_f) in zip(fac, x) if v == b]))/vol)
        e_sca.append(total([v_f for ((f, a, b), v_f) in zip(fac, p) if v in (a, b)])/(2*vol))
    ctx.eq("vector density", vec, ctx.arr(e_vec, "c"))
    ctx.eq("divergence density", div, ctx.arr(e_div, "c"))
    ctx.eq("scalar density", sca, ctx.arr(e_sca, "f"))
    # nothing is lost: the densities sum up to the face values
    ctx.eq("total of the scalar density", total(ctx.lst(sca))*vol, total(p))
    ctx.eq("total of the divergence", total(ctx.lst(div)), 0)
    ctx.eq("argument unchanged", var, ctx.arr(x, "c"))


def h_losses(ctx, nf, mf, freq):
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    f = frequency(ctx, freq)
    i_c = cvec(ctx, "Ic", nf)
    i_m = cvec(ctx, "Im", mf)
    r_c = cvec(ctx, "Rc", nf)
    r_m = cvec(ctx, "Rm", mf)
    dc = bool(f == 0)
    w = 2*ctx.pi*f
    (pc, pm) = ex.get_losses(f, ctx.arr(i_c, "c"), ctx.arr(i_m, "c"), ctx.arr(r_c, "c"), ctx.arr(r_m, "c"))
    pc = ctx.lst(pc)
    pm = ctx.lst(pm)

    def sq(z):
        return ctx.re(z)*ctx.re(z)+ctx.im(z)*ctx.im(z)
    fact = 1 if dc else ctx.frac(1, 2)
    ctx.check("number of losses", len(pc) == nf and len(pm) == mf)
    for k in range(nf):
        ctx.eq("electric losses", pc[k], fact*ctx.re(r_c[k])*sq(i_c[k]))
        ctx.check("electric losses are not negative", ctx.Implies(ctx.re(r_c[k]) >= 0, ctx.le(0, pc[k])))
    for k in range(mf):
        ctx.eq("magnetic losses", pm[k], fact*w*w*ctx.im(r_m[k])*sq(i_m[k])/w if not dc else 0)
        ctx.check("magnetic losses are not negative", ctx.Implies(ctx.im(r_m[k]) >= 0, ctx.le(0, pm[k])))


def h_energy(ctx, nf, mf, freq):
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    f = frequency(ctx, freq)
    i_c = cvec(ctx, "Ic", nf)
    i_m = cvec(ctx, "Im", mf)
    lm = dense(ctx, "L", nf, nf, True)
    km = dense(ctx, "K", nf, mf, True)
    (wc, wm) = ex.get_energy(f, ctx.arr(i_c, "c"), ctx.arr(i_m, "c"), operator(ctx, lm), operator(ctx, km))
    fact = ctx.If(f == 0, ctx.frac(1, 2), ctx.frac(1, 4)) if ctx.sym else (0.5 if f == 0 else 0.25)
    a = [fact*ctx.re(ctx.conj(i)*v) for (i, v) in zip(i_c, matvec(lm, i_c))]
    b = [fact*ctx.re(ctx.conj(i)*v) for (i, v) in zip(i_c, matvec(km, i_m))]
    ctx.eq("electric energy", wc, ctx.arr(a, "f"))
    ctx.eq("magnetic energy", wm, ctx.arr(b, "f"))


def h_integral(ctx, k):
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    v = [[ctx.real("%s%d" % (t, i)) for i in range(m)] for (t, m) in zip(("Pc", "Pm", "Wc", "Wm"), (k, k-1, k, k-1))]
    s = ctx.cplx("S")
    if ctx.sym:
        res = ex.get_integral(*[ctx.arr(x, "f") for x in v], s)
    else:
        res = ex.get_integral(*[ctx.arr(x, "f") for x in v], ctx.np.complex128(s))
    (pc, pm, wc, wm) = [total(x) for x in v]
    exp = {"P_electric": pc, "P_magnetic": pm, "W_electric": wc, "W_magnetic": wm, "P_total": pc+pm, "W_total": wc+wm, "S_total": s}
    for (t, e) in exp.items():
        ctx.eq("integral %s" % t, res[t], e)


def h_material(ctx, n, dom, mat, order):
    """Losses per material: their sum is the integral of the loss density over the voxels of the material."""
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    (idx_vc, idx_vm, material, _, _, _) = geom.geometry(ctx, pg, dom, mat, {}, order)
    (fc, ac) = net(ctx, n, idx_vc)
    (fm, am) = net(ctx, n, idx_vm)
    p_c = [ctx.real("Pc%d" % i) for i in range(len(fc))]
    p_m = [ctx.real("Pm%d" % i) for i in range(len(fm))]
    res = ex.get_material(material, ac, am, ctx.arr(p_c, "f"), ctx.arr(p_m, "f"))
    ctx.check("material names", sorted(res.keys()) == sorted(mat.keys()))
    for (tag, (typ, lst)) in mat.items():
        vox = set(v for t in lst for v in dom[t])
        e = total([ctx.frac(1, 2)*p*len([v for v in (a, b) if v in vox]) for ((_, a, b), p) in zip(fc, p_c)]) if "electric" in typ or typ == "electromagnetic" else 0
        m = total([ctx.frac(1, 2)*p*len([v for v in (a, b) if v in vox]) for ((_, a, b), p) in zip(fm, p_m)]) if typ in ("magnetic", "electromagnetic") else 0
        ctx.eq("losses of the material (electric)", res[tag]["P_electric"], e)
        ctx.eq("losses of the material (magnetic)", res[tag]["P_magnetic"], m)
        ctx.eq("losses of the material (total)", res[tag]["P_total"], e+m)
    ctx.eq("sum of the materials", total([r["P_total"] for r in res.values()]), total(p_c)+total(p_m))


def sym_dense(ctx, name, k):
    m = [[None]*k for _ in range(k)]
    for i in range(k):
        for j in range(i+1):
            m[i][j] = m[j][i] = ctx.real("%s%d_%d" % (name, i, j))
    return m


def h_balance(ctx, n, dom, mat, src, freq):
    """Complex power of the terminals, for an arbitrary vector and the residuals of the equations."""
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    (vc, vm, material, sc, sv, source) = geom.geometry(ctx, pg, dom, mat, src, "up")
    vsrc = sc+sv
    (fc, ac) = net(ctx, n, vc)
    (fm, am) = net(ctx, n, vm)
    f = frequency(ctx, freq)
    dc = bool(f == 0)
    w = 2*ctx.pi*f
    s = ctx.j*w
    (nf, mf, nv, mv) = (len(fc), len(fm), len(vc), len(vm))
    r_c = cvec(ctx, "Rc", nf)
    r_m = cvec(ctx, "Rm", mf)
    lm = sym_dense(ctx, "L", nf)
    pm = sym_dense(ctx, "P", mv)
    km = dense(ctx, "K", nf, mf, True)
    kt = [[km[i][j] for i in range(nf)] for j in range(mf)]
    i_c = cvec(ctx, "Ic", nf)
    v_c = cvec(ctx, "Vc", nv)
    i_s = cvec(ctx, "Is", len(vsrc))
    i_m = cvec(ctx, "Im", mf)
    v_m = cvec(ctx, "Vm", mv)

    # residuals of the equations
    row = {v: i for (i, v) in enumerate(vc)}
    rom = {v: i for (i, v) in enumerate(vm)}
    li = matvec(lm, i_c)
    ki = matvec(km, i_m) if mf else [0]*nf
    kj = matvec(kt, i_c) if nf else [0]*mf
    e = [r_c[q]*i_c[q]+s*li[q]+s*ki[q]-v_c[row[a]]+v_c[row[b]] for (q, (_, a, b)) in enumerate(fc)]
    inj = [total([x for (x, u) in zip(i_s, vsrc) if u == v]) for v in vc]
    k = [a-b for (a, b) in zip(incidence(vc, fc, i_c), inj)]
    m = [r_m[q]*i_m[q]-v_m[rom[a]]+v_m[rom[b]]-kj[q] for (q, (_, a, b)) in enumerate(fm)]
    ami = incidence(vm, fm, i_m)
    q = [a+b for (a, b) in zip(matvec(pm, ami), v_m)] if mv else []

    # code under test
    (p_fc, p_fm) = ex.get_losses(f, ctx.arr(i_c, "c"), ctx.arr(i_m, "c"), ctx.arr(r_c, "c"), ctx.arr(r_m, "c"))
    (w_fc, w_fm) = ex.get_energy(f, ctx.arr(i_c, "c"), ctx.arr(i_m, "c"), operator(ctx, lm), operator(ctx, km) if mf else geom.zero_operator(ctx, nf))
    (_, s_tot) = ex.get_source(f, source, ctx.arr(i_s, "c"), ctx.arr(v_c, "c"))
    res = ex.get_integral(p_fc, p_fm, w_fc, w_fm, s_tot)

    fact = 1 if dc else ctx.frac(1, 2)
    cor = total([a*ctx.conj(b) for (a, b) in zip(e, i_c)])+total([a*ctx.conj(b) for (a, b) in zip(v_c, k)])
    cor = cor+s*(total([ctx.conj(a)*b for (a, b) in zip(q, ami)])+total([ctx.conj(a)*b for (a, b) in zip(m, i_m)]))
    ctx.eq("active power balance", ctx.re(res["S_total"]), res["P_total"]-fact*ctx.re(cor))
    coi = total([a*ctx.conj(b) for (a, b) in zip(e, i_c)])+total([a*ctx.conj(b) for (a, b) in zip(v_c, k)])
    ri = total([ctx.im(r)*(ctx.re(i)*ctx.re(i)+ctx.im(i)*ctx.im(i)) for (r, i) in zip(r_c, i_c)])
    ctx.eq("reactive power balance", ctx.im(res["S_total"]), 2*w*res["W_total"]+fact*ri-fact*ctx.im(coi))


HARNESSES = []
for (n, sel) in [((2, 2, 2), ([6, 1, 0, 2, 5, 4], "up")), ((2, 2, 2), ("all", "mix")), ((3, 1, 2), ("all", "down")), ((1, 2, 2), ("all", "rot")),
                 ((2, 2, 1), ("any", "up")), ((3, 1, 1), ("any", "down")), ((1, 1, 3), ("any", "mix")), ((1, 2, 1), ("any", "up")), ((1, 1, 1), ("all", "up"))]:
    HARNESSES.append(H("density/%d%d%d/%s" % (*n, sel[1]), h_density, n=n, sel=sel))
for freq in ("any", "dc", "ac"):
    HARNESSES.append(H("losses/%s" % freq, h_losses, nf=2, mf=2, freq=freq))
    HARNESSES.append(H("losses/empty/%s" % freq, h_losses, nf=1, mf=0, freq=freq))
    HARNESSES.append(H("energy/%s" % freq, h_energy, nf=3, mf=2, freq=freq))
for k in (1, 3):
    HARNESSES.append(H("integral/%d" % k, h_integral, k=k))
D1 = {"a": [0, 1], "b": [3, 2], "c": [4], "d": [5], "e": []}
for order in ("up", "down", "mix"):
    HARNESSES.append(H("material/em/%s" % order, h_material, n=(3, 2, 1), dom=D1, order=order,
                       mat={"m1": ("electric", ["a", "c"]), "m2": ("magnetic", ["b"]), "m3": ("electromagnetic", ["d"])}))
    HARNESSES.append(H("material/two/%s" % order, h_material, n=(3, 2, 1), dom=D1, order=order,
                       mat={"m1": ("electric", ["c", "a", "e"]), "m2": ("electric", ["b"])}))
B1 = {"a": [0, 1], "b": [3], "c": [2]}
for freq in ("any", "dc"):
    HARNESSES.append(H("balance/e/%s" % freq, h_balance, n=(2, 2, 1), dom=B1, mat={"m": ("electric", ["a", "b"])},
                       src={"s": ("current", ["b"]), "t": ("voltage", ["a"])}, freq=freq))
    HARNESSES.append(H("balance/em/%s" % freq, h_balance, n=(2, 2, 1), dom=B1, mat={"m": ("electric", ["a"]), "n": ("magnetic", ["b", "c"])},
                       src={"s": ("current", ["a"])}, freq=freq))
    HARNESSES.append(H("balance/x/%s" % freq, h_balance, n=(1, 2, 2), dom=B1, mat={"m": ("electromagnetic", ["b", "a"]), "n": ("magnetic", ["c"])},
                       src={"s": ("voltage", ["b", "a"])}, freq=freq))
