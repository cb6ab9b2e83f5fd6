"""Inputs of the solver entry point, the stand-in of the iterative solver, and the reference values of the results."""

from .common import axis_of, faces_of, total, unlin
from .p01 import FFT, coeff, tensor
from .p04 import cvec, frequency
from .p08 import values
from .p17 import install

TOL_IT = {"rel_tol": 1e-6, "abs_tol": 1e-12, "n_inner": 5, "n_outer": 7}


def iter_options(solver):
    return dict(TOL_IT, solver=solver)


class Iter:
    """Stand-in of GMRES/GCROT: returns an arbitrary vector and an arbitrary exit flag."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []

    def __call__(self, op, rhs, x0=None, M=None, **kw):
        ctx = self.ctx
        k = len(self.calls)
        b = ctx.lst(rhs)
        x = cvec(ctx, "sol%d_" % k, len(b))
        flag = ctx.conc(ctx.int("flag%d" % k, 0, 1))
        self.calls.append({"rhs": b, "x0": None if x0 is None else ctx.lst(x0), "x": x, "flag": flag, "op": ctx.lst(op.matvec(ctx.arr(x, "c"))) if b else [], "kw": kw})
        return ctx.arr(x, "c"), flag


def library(ctx, name, f):
    if ctx.sym:
        ctx.hook_sparse(name, f)
    else:
        ctx.stub({"scipy.sparse.linalg": {name: f}})


class Problem:
    """
    dom: {tag: voxels}; mat: {tag: (type, domains, var_type, orientation)}; src: {tag: (type, domains, var_type)};
    sweep: {tag: init}; cloud: number of evaluation points.
    """

    def __init__(self, ctx, n, dom, mat, src, sweep, mult="direct", coupling="direct", solver="gmres", biot="face", cloud=0, freq="any", split=True):
        self.ctx = ctx
        self.n = n
        self.dom = dom
        self.mat = {t: (tuple(m)+("lumped", "isotropic")[len(m)-2:]) for (t, m) in mat.items()}
        self.src = {t: (tuple(s)+("lumped",)[len(s)-2:]) for (t, s) in src.items()}
        self.sweep = sweep
        self.coupling = coupling
        self.biot = biot
        self.d = [ctx.real("d"+a, lo=0.125, hi=8, pos=True) for a in "xyz"]
        self.c = [ctx.real("c"+a) for a in "xyz"]
        self.has_m = any(m[0] != "electric" for m in self.mat.values())
        (self.g, self.gm) = tensor(ctx, "potential", n)
        self.gs = ctx.real("g_self")
        nz = range(n[0])
        self.k = [[[[0 if (ix, iy, iz)[a] == 0 else ctx.real("K%d%d%d_%d" % (ix, iy, iz, a)) for a in range(3)] for iz in range(n[2])] for iy in range(n[1])] for ix in nz]
        self.pts = [[ctx.real("p%d%s" % (i, a)) for a in "xyz"] for i in range(cloud)]
        self.prm = {t: self.param(t, freq) for t in sweep}
        opt = iter_options(solver)
        self.tol = {
            "parallel_sweep": {"n_jobs": 0, "n_threads": None}, "integral_simplify": 20.0, "biot_savart": biot, "mult_type": mult,
            "fft_options": dict(FFT, library="NumPy" if ctx.sym else "SciPy", matrix_split=split, fftw_timeout=None),
            "factorization_options": {"library": "SuperLU", "pyamg_options": {"tol": 1e-6, "solver": "root", "krylov": None}, "pardiso_options": {"thread_pardiso": 1, "thread_mkl": 1}},
            "solver_options": {
                "coupling": coupling,
                "tolerance_options": {"ignore_status": coupling != "direct", "ignore_res": True, "rel_tol": 0.0, "abs_tol": 1e-9},
                "power_options": {"stop": False, "n_min": 5, "n_cmp": 3, "rel_tol": 1e-6, "abs_tol": 1e-9},
                "segregated_options": {"rel_tol": 0.0, "abs_tol": 1e-12, "n_min": 1, "n_max": 1, "relax_electric": 1.0, "relax_magnetic": 1.0,
                                       "iter_electric_options": opt, "iter_magnetic_options": opt},
                "direct_options": opt,
            },
            "condition_options": {"check": False, "tolerance_electric": 1e15, "tolerance_magnetic": 1e15, "norm_options": {"t_accuracy": 2, "n_iter_max": 25}},
        }

    def param(self, t, freq):
        """Values of a sweep and their expansion on the voxels."""
        ctx = self.ctx
        p = {"f": frequency2(ctx, "f_"+t, freq), "mat": {}, "src": {}, "rho": {}, "res": {}, "val": {}, "ele": {}}
        for (m, (typ, lst, var, ori)) in self.mat.items():
            vox = [v for d in lst for v in self.dom[d]]
            p["mat"][m] = {}
            f = {}
            for q in (["rho_re", "rho_im"] if typ != "magnetic" else [])+(["chi_re", "chi_im"] if typ != "electric" else []):
                (p["mat"][m][q], f[q]) = values(ctx, t+"_"+m, q, len(vox), var, ori, "pos" if q in ("rho_re", "chi_re") else False)
            for (i, v) in enumerate(vox):
                if typ != "magnetic":
                    p["rho"][v] = [f["rho_re"](i, a)+ctx.j*f["rho_im"](i, a) for a in range(3)]
                if typ != "electric":
                    p["res"][v] = [1/(ctx.mu_0*(f["chi_re"](i, a)-ctx.j*f["chi_im"](i, a))) for a in range(3)]
        for (s, (typ, lst, var)) in self.src.items():
            vox = [v for d in lst for v in self.dom[d]]
            k = len(vox)
            p["src"][s] = {}
            z = {}
            for q in (("I", "Y") if typ == "current" else ("V", "Z")):
                if var == "lumped":
                    (x, y) = (ctx.real("%s_%s_%s_re" % (t, s, q)), ctx.real("%s_%s_%s_im" % (t, s, q)))
                    z[q] = [x+ctx.j*y]*k
                else:
                    x = [ctx.real("%s_%s_%s_re%d" % (t, s, q, i)) for i in range(k)]
                    y = [ctx.real("%s_%s_%s_im%d" % (t, s, q, i)) for i in range(k)]
                    z[q] = [a+ctx.j*b for (a, b) in zip(x, y)]
                (p["src"][s][q+"_re"], p["src"][s][q+"_im"]) = (x, y)
            for (i, v) in enumerate(vox):
                div = k if var == "lumped" else 1
                if typ == "current":
                    (p["val"][v], p["ele"][v]) = (z["I"][i]/div, z["Y"][i]/div)
                else:
                    (p["val"][v], p["ele"][v]) = (z["V"][i], z["Z"][i]*div)
        return p

    # ------------------------------------------------------------------ run

    def inputs(self):
        ctx = self.ctx
        geom = {"n": tuple(self.n), "d": tuple(self.d), "s": tuple(k*v for (k, v) in zip(self.n, self.d)), "c": tuple(self.c), "voxel_status": {},
                "pts_cloud": ctx.arr(self.pts, "f").reshape((len(self.pts), 3)), "domain_def": {t: ctx.arr(v, "i") for (t, v) in self.dom.items()},
                "graph_def": [ctx.arr(sorted(v for l in self.dom.values() for v in l), "i")], "reference": None}
        voxel = {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_geom": geom}
        problem = {
            "material_def": {t: {"domain_list": list(l), "material_type": y, "orientation_type": o, "var_type": v} for (t, (y, l, v, o)) in self.mat.items()},
            "source_def": {t: {"domain_list": list(l), "source_type": y, "var_type": v} for (t, (y, l, v)) in self.src.items()},
            "sweep_solver": {t: {"init": i, "param": {"freq": self.prm[t]["f"], "material_val": self.prm[t]["mat"], "source_val": self.prm[t]["src"]}} for (t, i) in self.sweep.items()},
        }
        return voxel, problem, self.tol

    def prepare(self):
        """Load the entry point with the stand-ins: (module, iterative solver, recorded calls of the Green functions)."""
        ctx = self.ctx
        if ctx.sym:
            install(ctx)
        it = Iter(ctx)
        library(ctx, "gmres", it)
        library(ctx, "gcrotmk", it)
        library(ctx, "splu", lambda *a, **k: Lu(ctx))
        mod = ctx.load("pypeec.run.solver")
        st = ctx.load("pypeec.lib_solver.system_tensor")
        log = []

        def self_coef(d):
            log.append(("self", d))
            return self.gs

        def mutual(n, d, integral_simplify):
            log.append(("mutual", n, d, integral_simplify))
            return self.gm

        def coupl(n, d, integral_simplify, has_magnetic):
            log.append(("coupling", n, d, integral_simplify, has_magnetic))
            return ctx.arr(self.k, "f") if has_magnetic else None
        ctx.patch(st, "get_green_self", self_coef)
        ctx.patch(st, "get_green_tensor", mutual)
        ctx.patch(st, "get_coupling_tensor", coupl)
        return mod, it, log


class Lu:
    """Factorisation of the preconditioner (its solution is not used: the solver is a stand-in)."""

    def __init__(self, ctx):
        self.ctx = ctx

    def solve(self, rhs, *a, **k):
        return rhs


def frequency2(ctx, name, kind):
    if kind == "dc":
        return ctx.num(0.0)
    if kind == "ac":
        return ctx.real(name, pos=True)
    return ctx.real(name, lo=0)


class Result:
    """Reference results of a sweep for the solution x (in the layout of the solver) and its frequency."""

    def __init__(self, pb, tag, init, x):
        ctx = pb.ctx
        n = pb.n
        p = pb.prm[tag]
        d = pb.d
        (vc, vm, sc, sv) = (ctx.ints(init[k]) for k in ("idx_vc", "idx_vm", "idx_src_c", "idx_src_v"))
        (self.vc, self.vm, self.sc, self.sv) = (vc, vm, sc, sv)
        ff = {f: (f, a, b) for (f, a, b) in faces_of(n, set(vc))}
        gg = {f: (f, a, b) for (f, a, b) in faces_of(n, set(vm))}
        self.fc = [ff[f] for f in ctx.ints(init["idx_fc"])]
        self.fm = [gg[f] for f in ctx.ints(init["idx_fm"])]
        (fc, fm) = (self.fc, self.fm)
        self.complete = len(fc) == len(ff) and len(fm) == len(gg)
        src = sc+sv
        (nf, nv, ns, mf, mv) = (len(fc), len(vc), len(src), len(fm), len(vm))
        self.size = (nf+nv+ns, mf+mv)
        x = list(x)
        (i_c, v_c, i_s, i_m, v_m) = (x[:nf], x[nf:nf+nv], x[nf+nv:nf+nv+ns], x[nf+nv+ns:nf+nv+ns+mf], x[nf+nv+ns+mf:])
        (self.i_c, self.v_c, self.i_s, self.i_m, self.v_m) = (i_c, v_c, i_s, i_m, v_m)
        row = {v: i for (i, v) in enumerate(vc)}
        rom = {v: i for (i, v) in enumerate(vm)}
        f = p["f"]
        dc = bool(f == 0)
        s = ctx.j*2*ctx.pi*f
        area = (d[1]*d[2], d[0]*d[2], d[0]*d[1])
        vol = d[0]*d[1]*d[2]
        half = ctx.frac(1, 2)
        quarter = ctx.frac(1, 4)

        def ax(face):
            return axis_of(face[0], n)

        def resist(face, r):
            return d[ax(face)]/area[ax(face)]*half*(r[face[1]][ax(face)]+r[face[2]][ax(face)])
        r_c = [resist(q, p["rho"]) for q in fc]
        r_m = [resist(q, p["res"]) for q in fm]
        nvx = n[0]*n[1]*n[2]

        def ind(q, h):
            return ctx.mu_0/(area[ax(q)]*area[ax(q)])*coeff("inductance", n, pb.g, q[0], h[0])

        def cpl(q, h):
            if ax(q) == ax(h):
                return 0
            return quarter*total([coeff("coupling", n, pb.k, ax(q)*nvx+v, ax(h)*nvx+w) for v in q[1:] for w in h[1:]])
        li = [total([ind(q, h)*i for (h, i) in zip(fc, i_c)]) for q in fc]
        km = [total([cpl(q, h)*i for (h, i) in zip(fm, i_m)]) for q in fc]
        kc = [total([cpl(q, h)*i for (q, i) in zip(fc, i_c)]) for h in fm]

        def flow(vox, fac, cur):
            return [total([i for ((_, a, _), i) in zip(fac, cur) if a == v])-total([i for ((_, _, b), i) in zip(fac, cur) if b == v]) for v in vox]
        out_c = flow(vc, fc, i_c)
        out_m = flow(vm, fm, i_m)
        inj = [total([i for (i, u) in zip(i_s, src) if u == v]) for v in vc]
        pot = 1/(ctx.mu_0*vol*vol)
        pa = [pot*total([coeff("potential", n, pb.g, v, w)*q for (w, q) in zip(vm, out_m)]) for v in vm]
        # residual of the equations
        self.res = [r*i+s*a+s*b-(v_c[row[q[1]]]-v_c[row[q[2]]]) for (q, r, i, a, b) in zip(fc, r_c, i_c, li, km)]
        self.res += [a-b for (a, b) in zip(out_c, inj)]
        self.res += [i_s[k]+p["ele"][v]*v_c[row[v]]-p["val"][v] for (k, v) in enumerate(sc)]
        self.res += [p["ele"][v]*i_s[len(sc)+k]+v_c[row[v]]-p["val"][v] for (k, v) in enumerate(sv)]
        self.res += [r*i-(v_m[rom[q[1]]]-v_m[rom[q[2]]])-k for (q, r, i, k) in zip(fm, r_m, i_m, kc)]
        self.res += [a+b for (a, b) in zip(pa, v_m)]

        # magnitude of the terms (native runs: scale of the rounding errors)
        self.scale = {}
        if not ctx.sym:
            def mag(*lst):
                return float(sum(abs(complex(v)) for q in lst for v in q))
            l_a = [sum(abs(ind(q, h)*i) for (h, i) in zip(fc, i_c)) for q in fc]
            k_a = [sum(abs(cpl(q, h)*i) for (h, i) in zip(fm, i_m)) for q in fc]
            k_b = [sum(abs(cpl(q, h)*i) for (q, i) in zip(fc, i_c)) for h in fm]
            pt = [abs(pot*coeff("potential", n, pb.g, v, w))*mag(i_m) for v in vm for w in vm]
            ele = [p["ele"][v] for v in src]
            self.scale["res"] = mag([r*i for (r, i) in zip(r_c+r_m, i_c+i_m)], [s*a for a in l_a+k_a], k_b, pt, v_c, v_m, i_c, i_s,
                                    [e*v_c[row[v]] for (e, v) in zip(ele, src)], [e*i for (e, i) in zip(ele, i_s)], [p["val"][v] for v in src])
            loss = mag([abs(r)*abs(i)**2 for (r, i) in zip(r_c, i_c)], [abs(2*ctx.pi*f*r)*abs(i)**2 for (r, i) in zip(r_m, i_m)])
            self.scale["power"] = loss
            self.scale["energy"] = mag([abs(i)*a for (i, a) in zip(i_c, l_a)], [abs(i)*a for (i, a) in zip(i_c, k_a)])
            self.scale["terminal"] = mag([abs(v_c[row[v]])*abs(i) for (v, i) in zip(src, i_s)])
            self.scale["volt"] = mag(v_c, i_s, v_m)
            self.scale["field"] = mag(i_c, i_m)*max(1/vol, 1/min(area))
            self.scale["loss"] = loss/vol

        # losses and energies
        fact = 1 if dc else half
        w = 2*ctx.pi*f

        def sq(z):
            return ctx.re(z)*ctx.re(z)+ctx.im(z)*ctx.im(z)
        p_c = [fact*ctx.re(r)*sq(i) for (r, i) in zip(r_c, i_c)]
        p_m = [fact*w*ctx.im(r)*sq(i) if not dc else 0 for (r, i) in zip(r_m, i_m)]
        we = total([half*fact*ctx.re(ctx.conj(i)*a) for (i, a) in zip(i_c, li)])
        wm = total([half*fact*ctx.re(ctx.conj(i)*a) for (i, a) in zip(i_c, km)])
        st = total([fact*v_c[row[v]]*ctx.conj(i) for (v, i) in zip(src, i_s)])
        self.integral = {"P_electric": total(p_c), "P_magnetic": total(p_m), "W_electric": we, "W_magnetic": wm, "P_total": total(p_c)+total(p_m),
                         "W_total": we+wm, "S_total": st}

        # fields
        def dens(vox, fac, val):
            return [total([x for ((_, a, b), x) in zip(fac, val) if v in (a, b)])/(2*vol) for v in vox]

        def vec(vox, fac, val):
            return [[total([x for (q, x) in zip(fac, val) if v in q[1:] and ax(q) == k])/(2*area[k]) for k in range(3)] for v in vox]
        self.var = {"V_c": v_c, "P_c": dens(vc, fc, p_c), "S_c": [a/vol for a in out_c], "J_c": vec(vc, fc, i_c),
                    "V_m": v_m, "P_m": dens(vm, fm, p_m), "Q_m": [a/vol for a in out_m], "B_m": vec(vm, fm, i_m)}
        self.cat = {"V_c": "scalar_electric", "P_c": "scalar_electric", "S_c": "scalar_electric", "J_c": "vector_electric", "V_m": "scalar_magnetic",
                    "P_m": "scalar_magnetic", "Q_m": "scalar_magnetic", "B_m": "vector_magnetic", "H_p": "cloud"}
        # terminals and materials
        cur = {v: i for (v, i) in zip(src, i_s)}
        self.source, self.material = {}, {}
        for (t, (typ, lst, var)) in pb.src.items():
            vox = [v for q in lst for v in pb.dom[q]]
            self.source[t] = {"V": total([v_c[row[v]] for v in vox])/len(vox), "I": total([cur[v] for v in vox]),
                              "S": total([fact*v_c[row[v]]*ctx.conj(cur[v]) for v in vox])}
        for (t, (typ, lst, var, ori)) in pb.mat.items():
            vox = set(v for q in lst for v in pb.dom[q])
            e = total([half*x*len([v for v in (a, b) if v in vox]) for ((_, a, b), x) in zip(fc, p_c)]) if typ != "magnetic" else 0
            m = total([half*x*len([v for v in (a, b) if v in vox]) for ((_, a, b), x) in zip(fm, p_m)]) if typ != "electric" else 0
            self.material[t] = {"P_electric": e, "P_magnetic": m, "P_total": e+m}

        # centres of the voxels, and the magnetic field
        def centre(v):
            q = unlin(v, n)
            return [pb.c[k]+d[k]*(q[k]+half-half*n[k]) for k in range(3)]
        self.pts_c = [centre(v) for v in vc]
        self.pts_m = [centre(v) for v in vm]
        if pb.biot == "voxel":
            pos = self.pts_c
            mom = [[d[k]*half*total([x for (q, x) in zip(fc, i_c) if v in q[1:] and ax(q) == k]) for k in range(3)] for v in vc]
        else:
            pos = [[half*(a+b) for (a, b) in zip(centre(q[1]), centre(q[2]))] for q in fc]
            mom = [[d[k]*x if ax(q) == k else 0 for k in range(3)] for (q, x) in zip(fc, i_c)]
        self.h = []
        self.scale["h"] = 0
        for pt in pb.pts:
            h = [0, 0, 0]
            for (q, m) in zip(pos, mom):
                v = [a-b for (a, b) in zip(pt, q)]
                r = ctx.sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2])
                ctx.assume(r > (0 if ctx.sym else 0.01))
                z = [m[1]*v[2]-m[2]*v[1], m[2]*v[0]-m[0]*v[2], m[0]*v[1]-m[1]*v[0]]
                h = [a+b/(4*ctx.pi*r*r*r) for (a, b) in zip(h, z)]
                if not ctx.sym:
                    self.scale["h"] += sum(abs(a*b)/r**3 for a in m for b in v)
            for (q, m) in zip(self.pts_m, out_m):
                v = [a-b for (a, b) in zip(pt, q)]
                r = ctx.sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2])
                ctx.assume(r > (0 if ctx.sym else 0.01))
                h = [a-m*b/(4*ctx.pi*ctx.mu_0*r*r*r) for (a, b) in zip(h, v)]
                if not ctx.sym:
                    self.scale["h"] += sum(abs(x*b)/ctx.mu_0/r**3 for x in i_m for b in v)
            self.h.append(h)
