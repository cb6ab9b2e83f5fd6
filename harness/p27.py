"""The solver entry point: the results of every sweep are those of the given problem."""

from .common import H, faces_of
from .run_solver import Problem, Result

BOUNDS = ("complete runs with up to 4 electric and 3 magnetic voxels, 2 sources, 1 or 2 sweeps (the second one initialised from the first one or not), direct and "
          "segregated coupling, direct and FFT products, both Biot-Savart variants; dimensions, frequency (DC and AC), material and source values, Green "
          "coefficients, the vectors returned by the iterative solver and its exit flags symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "GMRES/GCROT return an arbitrary vector and exit flag (the equations are checked through the reported residual, "
               "for every vector)", "the Green tensors are arbitrary (property P21)", "the format check of jsonschema is accepted in the symbolic runs",
               "voxel dimensions (between 1/8 and 8), vacuum permeability, and the real parts of resistivities and susceptibilities are positive, evaluation points are not at the position of an element"]


def shape(ctx, lst, kind, width=None):
    a = ctx.arr(lst, kind)
    return a if width is None else a.reshape((len(lst), width))


def h_run(ctx, **cfg):
    pb = Problem(ctx, **cfg)
    (mod, it, log) = pb.prepare()
    check_run(ctx, pb, it, log, mod.run(*pb.inputs()))


def check_run(ctx, pb, it, log, out):
    """Results of a complete run."""
    init = out["data_init"]
    ctx.check("sections of the result", set(out) == {"date", "duration", "seconds", "status", "data_init", "data_sweep"})
    ctx.check("grid of the result", tuple(ctx.ints(list(init["n"]))) == tuple(pb.n))
    ctx.eq("voxel size of the result", list(init["d"]), pb.d)
    ctx.eq("centre of the result", list(init["c"]), pb.c)
    ctx.eq("evaluation points of the result", init["pts_cloud"], shape(ctx, pb.pts, "f", 3))
    for e in log:
        if e[0] != "self":
            ctx.check("Green functions of the grid", tuple(e[1]) == tuple(pb.n) and e[3] == 20.0)
        ctx.eq("Green functions of the voxel size", list(e[1] if e[0] == "self" else e[2]), pb.d)
        if e[0] == "coupling":
            ctx.check("coupling is required with magnetic domains", bool(e[4]) or not pb.has_m)
    ctx.check("sweeps of the result", set(out["data_sweep"]) == set(pb.sweep))
    # order of the solved sweeps
    todo = [t for t in pb.sweep if pb.sweep[t] is None]
    for t in todo:
        todo += [u for u in pb.sweep if pb.sweep[u] == t]
    calls = list(it.calls)
    ok = True
    done = {}
    for t in todo:
        r0 = Result(pb, t, init, [0]*1000) if not done else None
        if r0 is not None:
            size = r0.size
            ctx.check("faces of the result", r0.complete)
            exp_c = [v for m in pb.mat.values() if m[0] != "magnetic" for q in m[1] for v in pb.dom[q]]
            exp_m = [v for m in pb.mat.values() if m[0] != "electric" for q in m[1] for v in pb.dom[q]]
            exp_s = [[v for s in pb.src.values() if s[0] == typ for q in s[1] for v in pb.dom[q]] for typ in ("current", "voltage")]
            ctx.check("voxels of the result", sorted(r0.vc) == sorted(exp_c) and sorted(r0.vm) == sorted(exp_m))
            ctx.check("source voxels of the result", sorted(r0.sc) == sorted(exp_s[0]) and sorted(r0.sv) == sorted(exp_s[1]))
            nv = pb.n[0]*pb.n[1]*pb.n[2]
            ps = init["problem_status"]
            cnt = {"n_voxel_total": nv, "n_face_total": len(faces_of(pb.n, set(range(nv)))), "n_voxel_electric": len(r0.vc), "n_voxel_magnetic": len(r0.vm),
                   "n_face_electric": len(r0.fc), "n_face_magnetic": len(r0.fm), "n_src_current": len(r0.sc), "n_src_voltage": len(r0.sv)}
            ctx.check("counters of the problem", all(int(ps[k]) == v for (k, v) in cnt.items() if k in ps and k != "n_face_total"))
            ctx.eq("positions of the electric voxels", init["pts_net_c"], shape(ctx, r0.pts_c, "f", 3))
            ctx.eq("positions of the magnetic voxels", init["pts_net_m"], shape(ctx, r0.pts_m, "f", 3))
        # solution of the sweep
        if pb.coupling == "direct":
            part = [calls.pop(0)]
        else:
            part = [calls.pop(0) for k in size if k > 0]
        x = [v for p in part for v in p["x"]]
        ctx.check("size of the solution", len(x) == sum(size))
        x0 = done[pb.sweep[t]] if pb.sweep[t] is not None else [0]*len(x)
        got = [v for p in part for v in (p["x0"] if p["x0"] is not None else [0]*len(p["x"]))]
        ctx.eq("initial value of the sweep", ctx.arr(got, "c"), ctx.arr(x0, "c"))
        done[t] = x
        r = Result(pb, t, init, x)
        s = out["data_sweep"][t]

        def sc(k):
            return r.scale.get(k, 0)
        ctx.eq("frequency", s["freq"], pb.prm[t]["f"])
        ctx.eq("residual of the equations", s["res"], ctx.arr(r.res, "c"), scale=sc("res"))
        if pb.coupling == "direct":
            ctx.eq("solved equations", ctx.arr([a-b for (a, b) in zip(part[0]["op"], part[0]["rhs"])], "c"), ctx.arr(r.res, "c"), scale=sc("res"))
        flag = all(p["flag"] == 0 for p in part)
        if pb.coupling != "direct":
            # the status of the segregated solver is ignored in this configuration (property P16)
            flag = True
        ctx.check("convergence flags", bool(s["solver_ok"]) == flag and bool(s["condition_ok"]) and bool(s["has_converged"]) == flag)
        ok = ok and flag
        st = s["solver_status"]
        ctx.check("counters of the solver", (int(st["n_dof_electric"]), int(st["n_dof_magnetic"]), int(st["n_dof_total"])) == size+(sum(size),)
                  and bool(st["status"]) == flag)
        for (k, v) in r.integral.items():
            ctx.eq("integral "+k, s["integral"][k], v, scale=sc({"P": "power", "W": "energy", "S": "terminal"}[k[0]]))
        ctx.check("names of the terminals", set(s["source"]) == set(pb.src) and set(s["material"]) == set(pb.mat))
        for (q, ref) in r.source.items():
            for (k, v) in ref.items():
                ctx.eq("terminal "+k, s["source"][q][k], v, scale=sc("terminal" if k == "S" else "volt"))
        for (q, ref) in r.material.items():
            for (k, v) in ref.items():
                ctx.eq("material "+k, s["material"][q][k], v, scale=sc("power"))
        ctx.check("names of the fields", set(s["var"]) == set(r.cat) and all(s["var"][k]["cat"] == r.cat[k] for k in r.cat))
        for (k, v) in r.var.items():
            ctx.eq("field "+k, s["var"][k]["var"], shape(ctx, v, "c", 3 if k in ("J_c", "B_m") else None), scale=sc("loss" if k[0] == "P" else "volt" if k[0] == "V" else "field"))
        ctx.eq("field H_p", s["var"]["H_p"]["var"], shape(ctx, r.h, "c", 3), scale=sc("h"))
    ctx.check("each sweep is solved once", not calls)
    ctx.check("global status", out["status"] is ok or (out["status"] == ok and isinstance(out["status"], bool)))


D = {"a": [2, 0], "b": [3], "c": [1], "e": []}
D2 = {"a": [6, 4, 0], "b": [2, 3], "c": [7], "d": [5, 1]}
D3 = {"a": [2, 0], "b": [1], "c": [4, 3], "d": [5]}
HARNESSES = []


def add(name, tier="quick", **k):
    HARNESSES.append(H(name, h_run, tier=tier, **k))


ONE = {"x": None}
for freq in ("dc", "ac"):
    for mult in ("direct", "fft"):
        tag = "%s/%s" % (freq, mult)
        add("e/"+tag, n=(2, 2, 1), dom=D, mat={"m": ("electric", ["b", "a"])}, src={"s": ("current", ["b"]), "t": ("voltage", ["a"])}, sweep=ONE, freq=freq, mult=mult)
        add("em/"+tag, n=(2, 2, 1), dom=D, mat={"m": ("electric", ["a"]), "n": ("magnetic", ["b", "c"])}, src={"s": ("current", ["a"])}, sweep=ONE, freq=freq, mult=mult)
        add("x/"+tag, n=(1, 2, 2), dom=D, mat={"m": ("electromagnetic", ["c", "a"]), "n": ("magnetic", ["b"])}, src={"s": ("voltage", ["c"])}, sweep=ONE, freq=freq, mult=mult)
        add("big/"+tag, n=(2, 2, 2), dom=D2, mat={"m": ("electric", ["b", "a"]), "n": ("magnetic", ["d", "c"])}, src={"s": ("current", ["b"])}, sweep=ONE, freq=freq, mult=mult)
        add("long/"+tag, n=(3, 1, 2), dom=D3, mat={"m": ("electric", ["d", "a"], "lumped", "anisotropic"), "n": ("electromagnetic", ["c"]), "o": ("electric", ["b"])},
            src={"s": ("current", ["d"]), "t": ("voltage", ["c", "b"]), "u": ("current", ["a"])}, sweep=ONE, freq=freq, mult=mult)
for (tag, sweep) in (("chain", {"x": None, "y": "x"}), ("back", {"y": "x", "x": None}), ("free", {"y": None, "x": None})):
    for mode in ("direct", "segregated"):
        add("sweep/%s/%s" % (tag, mode), n=(2, 1, 2), dom=D, mat={"m": ("electric", ["a", "c"]), "n": ("magnetic", ["b"])}, src={"s": ("voltage", ["c"])}, sweep=sweep, freq="any", coupling=mode)
add("sweep/three", n=(2, 1, 1), dom={"a": [1], "b": [0]}, mat={"m": ("electric", ["a", "b"])}, src={"s": ("voltage", ["b"])}, sweep={"z": "y", "x": None, "y": "x"}, freq="any")
for (solver, mode) in (("gcrot", "segregated"), ("gmres", "segregated"), ("gcrot", "direct")):
    add("%s/%s" % (mode, solver), n=(2, 2, 1), dom=D, mat={"m": ("electric", ["a"]), "n": ("magnetic", ["b", "c"])}, src={"s": ("current", ["a"])}, sweep=ONE, freq="ac", coupling=mode, solver=solver)
for biot in ("face", "voxel"):
    add("field/"+biot, n=(2, 2, 1), dom=D, mat={"m": ("electric", ["a"]), "n": ("magnetic", ["b", "c"])}, src={"s": ("current", ["a"])}, sweep=ONE, freq="ac", biot=biot, cloud=1)
for kind in ("isotropic", "anisotropic"):
    add("distributed/"+kind, n=(2, 1, 2), dom=D, mat={"m": ("electric", ["a", "c"], "distributed", kind), "n": ("magnetic", ["b"], "lumped", kind)},
        src={"s": ("voltage", ["c", "a"], "distributed")}, sweep=ONE, freq="ac")
    add("distributed/x/"+kind, n=(1, 2, 2), dom=D, mat={"m": ("electric", ["a", "c"], "lumped", kind), "n": ("electromagnetic", ["b"], "distributed", kind)},
        src={"s": ("current", ["b", "a"], "distributed")}, sweep=ONE, freq="any")
