"""Material and source values of the voxels."""

from .common import H, axis_of, dims, net, orders, total
from .p07 import perm
from . import geom

BOUNDS = ("up to 7 voxels in up to 4 domains, up to 3 materials of all types (electric, magnetic, electromagnetic; lumped and distributed; isotropic and "
          "anisotropic) and up to 3 sources (current and voltage; lumped and distributed), every order of the domains in the definitions; all values symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "the real parts (or the imaginary parts) of the susceptibilities of a magnetic material are all non-zero", "domains are disjoint"]


def values(ctx, tag, name, k, var, ori, nz):
    """(value given to the code, value of voxel i along axis a)"""
    nm = "%s_%s" % (tag, name)
    kw = {"pos": True} if nz == "pos" else {"nonzero": nz}
    if var == "lumped" and ori == "isotropic":
        x = ctx.real(nm, **kw)
        return x, lambda i, a: x
    if var == "lumped":
        x = [ctx.real("%s_%d" % (nm, a), **kw) for a in range(3)]
        return x, lambda i, a: x[a]
    if ori == "isotropic":
        x = [ctx.real("%s_%d" % (nm, i), **kw) for i in range(k)]
        return x, lambda i, a: x[i]
    x = [[ctx.real("%s_%d_%d" % (nm, i, a), **kw) for a in range(3)] for i in range(k)]
    return x, lambda i, a: x[i][a]


def h_material(ctx, dom, mat, extra):
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    pv = ctx.load("pypeec.lib_solver.problem_value")
    mat = {t: (s[0], perm(ctx, "m_"+t, s[1]))+tuple(s[2:]) for (t, s) in mat.items()}
    (vc, vm, material, _, _, _) = geom.geometry(ctx, pg, dom, mat, {}, "up")
    val, ref_c, ref_m, exp_c, exp_m = {}, {}, {}, [], []
    for (t, (typ, lst, var, ori)) in mat.items():
        vox = [v for d in lst for v in dom[d]]
        val[t] = {}
        f = {}
        nz = ("chi_re", "chi_im")[ctx.conc(ctx.int("nz_"+t, 0, 1))] if typ != "electric" else None
        for q in (["rho_re", "rho_im"] if typ != "magnetic" else [])+(["chi_re", "chi_im"] if typ != "electric" else []):
            (val[t][q], f[q]) = values(ctx, t, q, len(vox), var, ori, q == nz)
        for (i, v) in enumerate(vox):
            if typ != "magnetic":
                ref_c[v] = [f["rho_re"](i, a)+ctx.j*f["rho_im"](i, a) for a in range(3)]
                exp_c.append(v)
            if typ != "electric":
                den = [f["chi_re"](i, a)-ctx.j*f["chi_im"](i, a) for a in range(3)]
                ref_m[v] = [1/(ctx.mu_0*z) for z in den]
                exp_m.append(v)
    ctx.check("electric voxels", sorted(vc) == sorted(exp_c))
    ctx.check("magnetic voxels", sorted(vm) == sorted(exp_m))
    if extra:
        val["zz"] = {"rho_re": 1.0, "rho_im": 0.0}
    allv = pv.get_material_value(val, material)
    (rho_c, rho_m) = pv.get_material_vector(allv)
    ctx.eq("electric resistivity", rho_c, ctx.arr([ref_c[v] for v in vc], "c").reshape((len(vc), 3)))
    ctx.eq("magnetic resistivity", rho_m, ctx.arr([ref_m[v] for v in vm], "c").reshape((len(vm), 3)))
    # positions of the voxels of the materials in the solver
    for (t, (typ, lst, var, ori)) in mat.items():
        vox = [v for d in lst for v in dom[d]]
        pc = ctx.ints(allv[t]["idx_vc"])
        pm = ctx.ints(allv[t]["idx_vm"])
        ctx.check("positions of the electric voxels", sorted(vc[p] for p in pc) == (sorted(vox) if typ != "magnetic" else []))
        ctx.check("positions of the magnetic voxels", sorted(vm[p] for p in pm) == (sorted(vox) if typ != "electric" else []))


def h_source(ctx, dom, src):
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    pv = ctx.load("pypeec.lib_solver.problem_value")
    src = {t: (s[0], perm(ctx, "s_"+t, s[1]), s[2]) for (t, s) in src.items()}
    (vc, vm, _, sc, sv, source) = geom.geometry(ctx, pg, dom, {"m": ("electric", list(dom))}, src, "up")
    val, ref_c, ref_v, ele_c, ele_v = {}, {}, {}, {}, {}
    for (t, (typ, lst, var)) in src.items():
        vox = [v for d in lst for v in dom[d]]
        k = len(vox)
        (a, b) = ("I", "Y") if typ == "current" else ("V", "Z")
        val[t] = {}
        z = {}
        for q in (a, b):
            if var == "lumped":
                (x, y) = (ctx.real("%s_%s_re" % (t, q)), ctx.real("%s_%s_im" % (t, q)))
                (val[t][q+"_re"], val[t][q+"_im"]) = (x, y)
                z[q] = [x+ctx.j*y]*k
            else:
                x = [ctx.real("%s_%s_re%d" % (t, q, i)) for i in range(k)]
                y = [ctx.real("%s_%s_im%d" % (t, q, i)) for i in range(k)]
                (val[t][q+"_re"], val[t][q+"_im"]) = (x, y)
                z[q] = [p+ctx.j*r for (p, r) in zip(x, y)]
        for (i, v) in enumerate(vox):
            # lumped: the total current is split, all voxels have the source voltage, the elements are in parallel
            div = k if var == "lumped" else 1
            if typ == "current":
                (ref_c[v], ele_c[v]) = (z["I"][i]/div, z["Y"][i]/div)
            else:
                (ref_v[v], ele_v[v]) = (z["V"][i], z["Z"][i]*div)
    ctx.check("current source voxels", sorted(sc) == sorted(ref_c))
    ctx.check("voltage source voxels", sorted(sv) == sorted(ref_v))
    allv = pv.get_source_value(val, source)
    (i_src, y_src) = pv.get_source_vector(allv, "current")
    (v_src, z_src) = pv.get_source_vector(allv, "voltage")
    ctx.eq("source currents", i_src, ctx.arr([ref_c[v] for v in sc], "c"))
    ctx.eq("source admittances", y_src, ctx.arr([ele_c[v] for v in sc], "c"))
    ctx.eq("source voltages", v_src, ctx.arr([ref_v[v] for v in sv], "c"))
    ctx.eq("source impedances", z_src, ctx.arr([ele_v[v] for v in sv], "c"))
    for (t, (typ, lst, var)) in src.items():
        vox = [v for d in lst for v in dom[d]]
        pc = ctx.ints(allv[t]["idx_vc"])
        ps = ctx.ints(allv[t]["idx_src"])
        ctx.check("positions of the potentials", sorted(vc[p] for p in pc) == sorted(vox))
        ctx.check("positions of the currents", sorted((sc+sv)[p] for p in ps) == sorted(vox))


def h_reject(ctx, what):
    """Wrong number of values, unknown domain, missing values: error."""
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    pv = ctx.load("pypeec.lib_solver.problem_value")
    dom = {"a": [3, 5], "b": [0]}
    k = ctx.conc(ctx.int("k", 0, 5))
    (kind, typ, ori) = what
    if kind == "material":
        (_, _, material, _, _, _) = geom.geometry(ctx, pg, dom, {"m": (typ, ["a", "b"], "distributed", ori)}, {}, "up")
        tags = {"electric": ["rho_re", "rho_im"], "magnetic": ["chi_re", "chi_im"]}[typ]
        bad = ctx.conc(ctx.int("bad", 0, 1))

        def mk(t, q):
            if ori == "isotropic":
                return [ctx.real("%s%d" % (t, i), pos=True) for i in range(q)]
            return [[ctx.real("%s%d_%d" % (t, i, a), pos=True) for a in range(3)] for i in range(q)]
        val = {"m": {t: mk(t, k if i == bad else 3) for (i, t) in enumerate(tags)}}
        (err, _) = ctx.raises(lambda: pv.get_material_vector(pv.get_material_value(val, material)))
    else:
        (_, _, _, _, _, source) = geom.geometry(ctx, pg, dom, {"m": ("electric", ["a", "b"])}, {"s": (typ, ["a", "b"], "distributed")}, "up")
        tags = {"current": ["I_re", "I_im", "Y_re", "Y_im"], "voltage": ["V_re", "V_im", "Z_re", "Z_im"]}[typ]
        bad = ctx.conc(ctx.int("bad", 0, 3))
        val = {"s": {t: [ctx.real("%s%d" % (t, i)) for i in range(k if j == bad else 3)] for (j, t) in enumerate(tags)}}
        (err, _) = ctx.raises(lambda: pv.get_source_vector(pv.get_source_value(val, source), typ))
    ctx.check("vectors of the right length are accepted, others rejected", (err is None) == (k == 3))


def h_missing(ctx, kind):
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    pv = ctx.load("pypeec.lib_solver.problem_value")
    dom = {"a": [3, 5], "b": [0]}
    names = ["m", "n"]
    have = [t for t in names if bool(ctx.bool("have_"+t))]
    if kind == "material":
        (_, _, material, _, _, _) = geom.geometry(ctx, pg, dom, {"m": ("electric", ["a"]), "n": ("electric", ["b"])}, {}, "up")
        (err, _) = ctx.raises(pv.get_material_value, {t: {"rho_re": 1.0, "rho_im": 0.0} for t in have}, material)
    else:
        (_, _, _, _, _, source) = geom.geometry(ctx, pg, dom, {"m": ("electric", ["a", "b"])}, {"m": ("current", ["a"]), "n": ("current", ["b"])}, "up")
        (err, _) = ctx.raises(pv.get_source_value, {t: {"I_re": 1.0, "I_im": 0.0, "Y_re": 0.0, "Y_im": 0.0} for t in have}, source)
    ctx.check("values missing for a definition are rejected", (err is None) == (len(have) == 2))


D = {"a": [6, 2], "b": [4], "c": [0, 5, 3], "e": []}
HARNESSES = []
for typ in ("electric", "magnetic", "electromagnetic"):
    for var in ("lumped", "distributed"):
        for ori in ("isotropic", "anisotropic"):
            HARNESSES.append(H("material/%s/%s/%s" % (typ, var, ori), h_material, dom=D, mat={"m": (typ, ["c", "b"], var, ori)}, extra=False))
HARNESSES.append(H("material/mix1", h_material, dom=D, extra=True, mat={
    "m": ("electric", ["a", "e"], "distributed", "isotropic"), "n": ("magnetic", ["b"], "lumped", "anisotropic"),
    "o": ("electromagnetic", ["c"], "lumped", "isotropic")}))
HARNESSES.append(H("material/mix2", h_material, dom=D, extra=True, mat={
    "m": ("electromagnetic", ["b", "a"], "distributed", "anisotropic"), "n": ("electric", ["c"], "lumped", "isotropic")}))
HARNESSES.append(H("material/mix3", h_material, dom=D, extra=False, mat={
    "m": ("electric", ["b", "a"], "lumped", "anisotropic"), "n": ("electric", ["c"], "distributed", "anisotropic")}))
for typ in ("current", "voltage"):
    for var in ("lumped", "distributed"):
        HARNESSES.append(H("source/%s/%s" % (typ, var), h_source, dom=D, src={"s": (typ, ["c", "b", "a"], var)}))
HARNESSES.append(H("source/mix1", h_source, dom=D, src={"s": ("voltage", ["a"], "lumped"), "t": ("current", ["c", "b"], "lumped")}))
HARNESSES.append(H("source/mix2", h_source, dom=D, src={"s": ("current", ["a", "b"], "distributed"), "t": ("voltage", ["c"], "lumped")}))
HARNESSES.append(H("source/mix3", h_source, dom=D, src={"s": ("current", ["a"], "lumped"), "t": ("voltage", ["b", "e"], "distributed"),
                                                       "u": ("current", ["c"], "distributed")}))
HARNESSES.append(H("source/mix4", h_source, dom=D, src={"s": ("voltage", ["c"], "distributed"), "u": ("voltage", ["a", "b"], "lumped")}))
for ori in ("isotropic", "anisotropic"):
    for typ in ("electric", "magnetic"):
        HARNESSES.append(H("reject/material/%s/%s" % (typ, ori), h_reject, what=("material", typ, ori)))
for typ in ("current", "voltage"):
    HARNESSES.append(H("reject/source/%s" % typ, h_reject, what=("source", typ, None)))
HARNESSES.append(H("missing/material", h_missing, kind="material"))
HARNESSES.append(H("missing/source", h_missing, kind="source"))
