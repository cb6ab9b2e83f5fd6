"""Terminal quantities of the sources."""

from .common import H, total
from .p04 import cvec, frequency
from . import geom

BOUNDS = ("up to 5 voxels in up to 3 domains with up to 3 voxels, 1-3 sources (current, voltage, several domains, empty domains), every order of the domains "
          "in the materials and sources and every order of the voxels in the domains (solver choices); potentials, currents, and frequency symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "domains are disjoint"]


def perm(ctx, name, lst):
    """An order of a list chosen by the solver."""
    lst = list(lst)
    out = []
    k = 0
    while lst:
        i = ctx.conc(ctx.int("%s_%d" % (name, k), 0, len(lst)-1)) if len(lst) > 1 else 0
        out.append(lst.pop(i))
        k += 1
    return out


def h_source(ctx, dom, mat, src, freq, vox):
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    ex = ctx.load("pypeec.lib_solver.extract_solution")
    co = ctx.load("pypeec.lib_solver.extract_convergence")
    dom = {t: (perm(ctx, "v_"+t, v) if t in vox else v) for (t, v) in dom.items()}
    mat = {t: (s[0], perm(ctx, "m_"+t, s[1])) for (t, s) in mat.items()}
    src = {t: (s[0], perm(ctx, "s_"+t, s[1]))+tuple(s[2:]) for (t, s) in src.items()}
    (vc, vm, material, sc, sv, source) = geom.geometry(ctx, pg, dom, mat, src, "up")
    idx_src = sc+sv
    f = frequency(ctx, freq)
    dc = bool(f == 0)
    fact = 1 if dc else ctx.frac(1, 2)
    pot = {v: ctx.cplx("V%d" % v) for v in sorted(vc)}
    cur = {v: ctx.cplx("I%d" % v) for v in sorted(idx_src)}
    v_vc = ctx.arr([pot[v] for v in vc], "c")
    i_src = ctx.arr([cur[v] for v in idx_src], "c")
    (res, s_tot) = ex.get_source(f, source, i_src, v_vc)
    ctx.check("source names", sorted(res.keys()) == sorted(src.keys()))
    s_ref = 0
    for (t, spec) in src.items():
        vox_t = [v for d in spec[1] for v in dom[d]]
        k = len(vox_t)
        s_t = total([fact*pot[v]*ctx.conj(cur[v]) for v in vox_t])
        ctx.eq("voltage", res[t]["V"], total([pot[v] for v in vox_t])/k if k else 0)
        ctx.eq("current", res[t]["I"], total([cur[v] for v in vox_t]))
        ctx.eq("power", res[t]["S"], s_t)
        ctx.check("source type", res[t]["source_type"] == spec[0])
        s_ref = s_ref+s_t
    ctx.eq("total power", s_tot, s_ref)

    # the monitor of the solver: the positions of the potentials and currents in the complete vector
    (o_v, o_i) = (2, 2+len(vc))
    pad = cvec(ctx, "pad", 3)
    sol = ctx.arr(pad[:2]+[pot[v] for v in vc]+[cur[v] for v in idx_src]+pad[2:], "c")
    lay = {"V_vc": ctx.np.arange(o_v, o_v+len(vc)), "I_src": ctx.np.arange(o_i, o_i+len(idx_src)),
           "I_fc": ctx.np.arange(0, 2), "I_fm": ctx.np.arange(o_i+len(idx_src), o_i+len(idx_src)+1), "V_vm": ctx.np.arange(0, 0)}
    conv = co.get_fct_conv(f, source, lay)(sol)
    ctx.eq("convergence monitor", conv, s_ref)
    split = ex.get_sol_extract(sol, lay)
    ctx.eq("potentials of the solution", split[1], v_vc)
    ctx.eq("currents of the solution", split[4], i_src)
    ctx.eq("face currents of the solution", split[0], ctx.arr(pad[:2], "c"))
    ctx.eq("magnetic fluxes of the solution", split[2], ctx.arr(pad[2:], "c"))


D = {"a": [4, 7], "b": [2], "c": [9, 1], "e": [], "x": [3]}
HARNESSES = []
for freq in ("any", "dc", "ac"):
    HARNESSES.append(H("one/%s" % freq, h_source, dom=D, mat={"m": ("electric", ["a", "b"])}, src={"s": ("current", ["a", "b"])}, freq=freq, vox=["a"]))
for (t1, t2) in (("current", "voltage"), ("voltage", "current"), ("current", "current"), ("voltage", "voltage")):
    HARNESSES.append(H("two/%s/%s" % (t1, t2), h_source, dom=D, mat={"m": ("electric", ["a", "b"]), "n": ("electric", ["c", "x"])},
                       src={"s": (t1, ["c", "b"]), "t": (t2, ["a"])}, freq="any", vox=["c"]))
HARNESSES.append(H("all", h_source, dom=D, mat={"m": ("electric", ["a", "b", "c"])}, src={"s": ("voltage", ["b", "c", "a"])}, freq="any", vox=["a", "c"]))
HARNESSES.append(H("empty", h_source, dom=D, mat={"m": ("electromagnetic", ["a", "b", "e"]), "n": ("magnetic", ["x"])},
                   src={"s": ("current", ["e"]), "t": ("voltage", ["b"]), "u": ("current", ["e", "a"])}, freq="any", vox=[]))
D3 = {"a": [4, 7, 0], "b": [2], "c": [9, 1, 5]}
HARNESSES.append(H("three", h_source, dom=D3, mat={"m": ("electric", ["a", "b"]), "n": ("electromagnetic", ["c"])},
                   src={"s": ("voltage", ["c", "a"]), "t": ("current", ["b"])}, freq="ac", vox=["a", "c"]))
