"""Convergence status, stop criteria and iteration limits of the solver, and condition number."""

from .common import H, total

BOUNDS = ("systems with 1 or 2 electric and 0 to 2 magnetic unknowns (arbitrary complex operators, right-hand sides and initial values), up to 4 solver iterations with arbitrary "
          "iterates and exit flags, symbolic tolerances, relaxation and iteration limits; condition numbers of arbitrary real matrices up to 2x2 and empty ones")
ASSUMPTIONS = ["GMRES/GCROT call the callback with arbitrary iterates and return an arbitrary vector and exit flag (0 if and only if successful)",
               "onenormest is exact for matrices up to 2x2 with t >= n; splu gives the exact inverse of non-singular matrices"]


def library(ctx, name, f):
    if ctx.sym:
        ctx.hook_sparse(name, f)
    else:
        ctx.stub({"scipy.sparse.linalg": {name: f}})


def vec(ctx, lst):
    return ctx.arr(list(lst), "c")


def matrix(ctx, name, m, n):
    a = [[ctx.cplx("%s%d%d" % (name, i, j)) for j in range(n)] for i in range(m)]

    def op(x):
        v = ctx.lst(x)
        assert len(v) == n
        return vec(ctx, [total([a[i][j]*v[j] for j in range(n)]) for i in range(m)])
    return op


def norm(ctx, lst):
    return ctx.sqrt(total([ctx.re(v)*ctx.re(v)+ctx.im(v)*ctx.im(v) for v in lst]))


def largest(ctx, lst):
    r = lst[0]
    for v in lst[1:]:
        r = ctx.If(v > r, v, r)
    return r


def number(ctx, name, mode):
    return ctx.cplx(name) if mode == "ops" else ctx.real(name, -50, 50)+0*ctx.j


def setup(ctx, nc, nm, init, mode):
    """mode ops: arbitrary complex operators; mode real: fixed integer operators and real vectors."""
    s = {"nc": nc, "nm": nm}

    def mat(name, m, n, a):
        if mode == "ops":
            return matrix(ctx, name, m, n)

        def op(x):
            v = ctx.lst(x)
            assert len(v) == n
            return vec(ctx, [total([(a+2*i-j if (i+j) % 2 == 0 else 1-a)*v[j] for j in range(n)])+0*ctx.j for i in range(m)])
        return op
    s["sys"] = (mat("Ac", nc, nc, 2), mat("Am", nm, nm, 3))
    s["cpl"] = (mat("Kc", nc, nm, -2), mat("Km", nm, nc, 5))
    s["pcd"] = (mat("Pc", nc, nc, 7), mat("Pm", nm, nm, -4))
    if mode == "ops":
        s["rhs"] = ([ctx.cplx("bc%d" % i) for i in range(nc)], [ctx.cplx("bm%d" % i) for i in range(nm)])
    elif nc+nm == 1:
        s["rhs"] = ([number(ctx, "b", mode)], [])
    else:
        # the norm of the vector is rational
        b = {2: [3, 4], 3: [1, -2, 2]}[nc+nm]
        s["rhs"] = ([v+0*ctx.j for v in b[:nc]], [v+0*ctx.j for v in b[nc:]])
    s["x0"] = [number(ctx, "x0%d" % i, mode) for i in range(nc+nm)] if init else None

    def full(x):
        v = ctx.lst(x)
        (a, b) = (vec(ctx, v[:nc]), vec(ctx, v[nc:]))
        return [p+q for (p, q) in zip(ctx.lst(s["sys"][0](a)), ctx.lst(s["cpl"][0](b)))]+[p+q for (p, q) in zip(ctx.lst(s["sys"][1](b)), ctx.lst(s["cpl"][1](a)))]
    s["full"] = full
    s["fcpl"] = (s["cpl"][0], s["cpl"][1])
    return s


def options(ctx, mode):
    o = {"tol": {"ignore_status": mode == "ops" or ctx.bool("ign_s"), "ignore_res": mode == "ops" or ctx.bool("ign_r"), "rel_tol": 0 if mode == "ops" else ctx.real("rtol", 0),
                 "abs_tol": ctx.real("atol", 0)},
         "pow": {"stop": False, "n_min": 0, "n_cmp": 0, "rel_tol": 0, "abs_tol": 0},
         "it": {"solver": "gmres", "rel_tol": ctx.real("rt", 0), "abs_tol": ctx.real("at", 0), "n_inner": 7, "n_outer": 11}}
    o["tol"]["ignore_status"] = bool(o["tol"]["ignore_status"])
    o["tol"]["ignore_res"] = bool(o["tol"]["ignore_res"])
    return o


def call(ctx, es, s, o, coupling, direct, seg):
    rhs = (vec(ctx, s["rhs"][0]), vec(ctx, s["rhs"][1]))
    x0 = None if s["x0"] is None else vec(ctx, s["x0"])

    def fct_conv(sol):
        return sol[0]
    opt = {"coupling": coupling, "tolerance_options": o["tol"], "power_options": o["pow"], "direct_options": direct, "segregated_options": seg}
    return es.get_solver(x0, s["fcpl"], s["sys"], s["pcd"], rhs, fct_conv, opt)


def status_check(ctx, s, o, out, sol, solver, n_iter, mode):
    """Oracle of the returned values: sol is the expected solution, solver the expected solver status."""
    (sol2, res, conv, ok, st) = out
    ctx.eq("the returned solution is that of the solver", sol2, vec(ctx, sol))
    b = s["rhs"][0]+s["rhs"][1]
    r = [p-q for (p, q) in zip(s["full"](vec(ctx, sol)), b)]
    ctx.eq("residual of the solution", ctx.lst(res), r)
    if mode == "ops":
        want = True
    else:
        nb = norm(ctx, b)*o["tol"]["rel_tol"]
        thr = ctx.If(nb > o["tol"]["abs_tol"], nb, o["tol"]["abs_tol"])
        val = norm(ctx, r)
        ctx.assume(ctx.Or(val < thr*ctx.frac(999, 1000), val > thr*ctx.frac(1001, 1000), ctx.And(o["tol"]["ignore_res"])))
        ctx.eq("residual norm", st["res_val"], val)
        ctx.eq("residual threshold", st["res_thr"], thr)
        want = ctx.And(ctx.Or(o["tol"]["ignore_res"], val < thr), ctx.Or(o["tol"]["ignore_status"], solver))
    ctx.check("convergence flag", ctx.Iff(ok, want))
    ctx.check("convergence flag of the status", ctx.Iff(st["status"], want))
    ctx.check("number of iterations", st["n_iter"] == n_iter)
    ctx.check("size of the system", (st["n_dof_electric"], st["n_dof_magnetic"], st["n_dof_total"]) == (s["nc"], s["nm"], s["nc"]+s["nm"]))
    first = [0]*(s["nc"]+s["nm"]) if s["x0"] is None else s["x0"]
    ctx.eq("initial power", conv["power_init"], first[0])
    ctx.eq("final power", conv["power_final"], sol[0])


def h_direct(ctx, nc, nm, solver, k, init=True, power=False, mode="real"):
    s = setup(ctx, nc, nm, init, mode)
    n = nc+nm
    o = options(ctx, mode)
    o["it"]["solver"] = solver
    xs = [[number(ctx, "x%d_%d" % (i+1, j), mode) for j in range(n)] for i in range(k)]
    y = [number(ctx, "y%d" % j, mode) for j in range(n)]
    flag = ctx.int("flag", -1, 2)
    ev = ctx.conc(ctx.int("evals", 0, 2))
    pe = 1
    if power:
        o["pow"] = {"stop": True, "n_min": ctx.conc(ctx.int("n_min", 0, k+1)), "n_cmp": ctx.conc(ctx.int("n_cmp", 0, k)),
                    "rel_tol": ctx.real("prt", 0), "abs_tol": ctx.real("pat", 0)}
    log = {"n": 0, "calls": 0}

    def run(A, b, x0=None, *a, **kw):
        log["calls"] += 1
        ctx.check("options of the solver are given by name", not a)
        ctx.eq("right-hand side of the solver", ctx.lst(b), s["rhs"][0]+s["rhs"][1])
        if s["x0"] is not None:
            ctx.eq("initial value of the solver", ctx.lst(x0), s["x0"])
        elif x0 is not None:
            ctx.eq("initial value of the solver", ctx.lst(x0), [0]*n)
        ctx.eq("relative tolerance of the solver", kw.pop("rtol"), o["it"]["rel_tol"])
        ctx.eq("absolute tolerance of the solver", kw.pop("atol"), o["it"]["abs_tol"])
        ctx.check("inner iterations of the solver", kw.pop("restart" if solver == "gmres" else "m") == 7)
        ctx.check("outer iterations of the solver", kw.pop("maxiter") == 11)
        M = kw.pop("M")
        cb = kw.pop("callback")
        if solver == "gmres":
            ctx.check("callback with the solution", kw.pop("callback_type") == "x")
        ctx.check("no other options", not kw)
        v = [number(ctx, "v%d" % j, mode) for j in range(n)]
        for _ in range(ev):
            ctx.eq("system operator of the solver", ctx.lst(A.matvec(vec(ctx, v))), s["full"](vec(ctx, v)))
        for _ in range(pe):
            ctx.eq("preconditioner of the solver", ctx.lst(M.matvec(vec(ctx, v))), ctx.lst(s["pcd"][0](vec(ctx, v[:nc])))+ctx.lst(s["pcd"][1](vec(ctx, v[nc:]))))
        for x in xs:
            log["n"] += 1
            cb(vec(ctx, x))
        return vec(ctx, y), flag

    def other(*a, **kw):
        ctx.fail("the requested solver is used")
    library(ctx, {"gmres": "gmres", "gcrot": "gcrotmk"}[solver], run)
    library(ctx, {"gmres": "gcrotmk", "gcrot": "gmres"}[solver], other)
    es = ctx.load("pypeec.lib_solver.equation_solver")
    out = call(ctx, es, s, o, "direct", o["it"], None)
    ctx.check("the solver is called once", log["calls"] == 1)
    # iteration at which the power has converged
    stop = None
    if power:
        least = max(2, o["pow"]["n_cmp"]+1, o["pow"]["n_min"])
        for i in range(1, k+1):
            if i < least:
                continue
            p = [x[0] for x in xs[:i]]
            hist = p[i-1-o["pow"]["n_cmp"]:i-1]
            err = [norm(ctx, [p[-1]-q]) for q in hist]
            pr = norm(ctx, [p[-1]])*o["pow"]["rel_tol"]
            thr = ctx.If(pr > o["pow"]["abs_tol"], pr, o["pow"]["abs_tol"])
            for e in err:
                ctx.assume(ctx.Or(e < thr*ctx.frac(999, 1000), e > thr*ctx.frac(1001, 1000), e == 0))
            if bool(ctx.And(True, *[e <= thr for e in err])):
                stop = i
                break
    if stop is not None:
        ctx.check("stopped at the first iteration with a converged power", log["n"] == stop)
        ctx.eq("history of the power", ctx.lst(out[2]["power_vec"]), [x[0] for x in xs[:stop]])
        status_check(ctx, s, o, out, xs[stop-1], True, stop, mode)
    else:
        ctx.check("not stopped without a converged power", log["n"] == k)
        ctx.eq("history of the power", ctx.lst(out[2]["power_vec"]), [x[0] for x in xs])
        status_check(ctx, s, o, out, y, flag == 0, k, mode)
    ctx.check("evaluations of the system", out[4]["n_sys_eval"] == ev)
    ctx.check("evaluations of the preconditioner", out[4]["n_pcd_eval"] == pe)


def h_seg(ctx, nc, nm, n_max, init=True, n_min=None, mode="real"):
    s = setup(ctx, nc, nm, init, mode)
    o = options(ctx, mode)
    seg = {"rel_tol": ctx.real("srt", 0), "abs_tol": ctx.real("sat", 0), "n_max": n_max,
           "n_min": ctx.conc(ctx.int("n_min", 0, n_max+1)) if n_min is None else n_min,
           "relax_electric": ctx.real("re") if mode == "ops" else 1.0, "relax_magnetic": ctx.real("rm") if mode == "ops" else 0.5,
           "iter_electric_options": dict(o["it"]), "iter_magnetic_options": dict(o["it"], n_outer=13)}
    cur = {"c": [0]*nc if s["x0"] is None else s["x0"][:nc], "m": [0]*nm if s["x0"] is None else s["x0"][nc:]}
    old = dict(cur)
    log = []

    def run(A, b, x0=None, *a, **kw):
        i = len(log)//2
        ax = "cm"[len(log) % 2]
        log.append(ax)
        ctx.check("the number of iterations is limited", i < n_max)
        oth = "cm"[1-(len(log)-1) % 2]
        nd = nc if ax == "c" else nm
        ctx.check("outer iterations of the solver", kw["maxiter"] == (11 if ax == "c" else 13))
        q = 0 if ax == "c" else 1

        def want(z):
            return [p-w for (p, w) in zip(s["rhs"][q], ctx.lst(s["cpl"][q](vec(ctx, z))))]
        ctx.check("right-hand side of the domain", ctx.Or(ctx.eq_cond(ctx.lst(b), want(cur[oth])), ctx.eq_cond(ctx.lst(b), want(old[oth]))))
        if i == 0:
            v = [number(ctx, "v%s%d" % (ax, j), mode) for j in range(nd)]
            ctx.eq("operator of the domain", ctx.lst(A.matvec(vec(ctx, v))), ctx.lst(s["sys"][q](vec(ctx, v))))
            ctx.eq("preconditioner of the domain", ctx.lst(kw["M"].matvec(vec(ctx, v))), ctx.lst(s["pcd"][q](vec(ctx, v))))
        x = [number(ctx, "x%s%d_%d" % (ax, i, j), mode) for j in range(nd)]
        f = 1 if mode == "ops" else ctx.int("f%s%d" % (ax, i), 0, 1)
        flags[ax] = f
        rel = seg["relax_electric"] if ax == "c" else seg["relax_magnetic"]
        old[ax] = cur[ax]
        cur[ax] = [(1-rel)*p+rel*w for (p, w) in zip(cur[ax], x)]
        if ax == "m":
            sols.append(cur["c"]+cur["m"])
            oks.append((flags["c"], flags["m"]))
        return vec(ctx, x), f
    flags = {}
    sols = []
    oks = []
    library(ctx, "gmres", run)
    es = ctx.load("pypeec.lib_solver.equation_solver")
    out = call(ctx, es, s, o, "segregated", None, seg)
    k = len(sols)
    b = s["rhs"][0]+s["rhs"][1]
    st = [False]*k
    if mode != "ops":
        nb = norm(ctx, b)*seg["rel_tol"]
        thr = ctx.If(nb > seg["abs_tol"], nb, seg["abs_tol"])
        st = []
    for (sol, (fc, fm)) in (zip(sols, oks) if mode != "ops" else ()):
        val = norm(ctx, [p-q for (p, q) in zip(s["full"](vec(ctx, sol)), b)])
        ctx.assume(ctx.Or(val < thr*ctx.frac(999, 1000), val > thr*ctx.frac(1001, 1000)))
        st.append(ctx.And(fc == 0, fm == 0, val < thr))
    for i in range(1, k+1):
        end = ctx.Or(i >= n_max, ctx.And(st[i-1], i >= seg["n_min"]))
        ctx.check("iterations until the convergence", ctx.Iff(end, i == k))
    ctx.eq("history of the power", ctx.lst(out[2]["power_vec"]), [x[0] for x in sols])
    status_check(ctx, s, o, out, sols[-1], st[-1], k, mode)


def mat_cond(ctx, name, n):
    return [[ctx.real("%s%d%d" % (name, i, j), -9, 9) for j in range(n)] for i in range(n)]


def det(a):
    return 1 if not a else a[0][0] if len(a) == 1 else a[0][0]*a[1][1]-a[0][1]*a[1][0]


def inverse(ctx, a):
    if len(a) == 1:
        return [[ctx.frac(1, a[0][0])]]
    d = det(a)
    return [[ctx.frac(a[1][1], d), ctx.frac(0-a[0][1], d)], [ctx.frac(0-a[1][0], d), ctx.frac(a[0][0], d)]]


def norm1(ctx, a):
    if not a:
        return 0
    return largest(ctx, [total([ctx.abs(ctx.re(a[i][j])) for i in range(len(a))]) for j in range(len(a))])


def h_cond(ctx, nc, nm, check=True):
    (a, b) = (mat_cond(ctx, "a", nc), mat_cond(ctx, "b", nm))
    for m in (a, b):
        if m:
            ctx.assume(ctx.Or(det(m) > ctx.frac(1, 100), det(m) < ctx.frac(-1, 100)))
    tol = (ctx.real("tc", 0), ctx.real("tm", 0))
    if ctx.sym:
        class LU:
            def __init__(self, mat):
                d = mat.toarray()
                n = d.shape[0]
                self.a = [[d[i, j] for j in range(n)] for i in range(n)]

            def solve(self, rhs, trans="N"):
                v = ctx.lst(rhs)
                inv = inverse(ctx, [[ctx.re(x) for x in r] for r in self.a])
                n = len(v)
                if trans == "N":
                    return vec(ctx, [total([inv[i][j]*v[j] for j in range(n)]) for i in range(n)])
                return vec(ctx, [total([inv[j][i]*v[j] for j in range(n)]) for i in range(n)])

        def onenormest(A, t=2, itmax=5, compute_v=False, compute_w=False):
            n = A.shape[0]
            ctx.check("accuracy of the estimate", (t, itmax) == (3, 8))
            e = [vec(ctx, [1 if i == j else 0 for i in range(n)]) for j in range(n)]
            if not hasattr(A, "_is_spmat"):
                cols = [ctx.lst(A.matvec(v)) for v in e]
                adj = [ctx.lst(A.rmatvec(v)) for v in e]
                for i in range(n):
                    for j in range(n):
                        ctx.eq("adjoint of the inverse", adj[j][i], ctx.conj(cols[i][j]))
            else:
                cols = [ctx.lst(A @ v) for v in e]
            return largest(ctx, [total([ctx.abs(ctx.re(x)) for x in c]) for c in cols])
        ctx.hook_sparse("splu", LU)
        ctx.hook_sparse("onenormest", onenormest)
    es = ctx.load("pypeec.lib_solver.equation_solver")
    mats = tuple(ctx.sps.csc_matrix(ctx.arr([v for r in m for v in r], "c").reshape((len(m), len(m)))) if m else ctx.sps.csc_matrix((0, 0), dtype=ctx.np.complex128) for m in (a, b))
    opt = {"check": check, "tolerance_electric": tol[0], "tolerance_magnetic": tol[1], "norm_options": {"t_accuracy": 3, "n_iter_max": 8}}
    (ok, st) = es.get_condition(mats, opt)
    if not check:
        ctx.check("no check of the condition", ctx.And(ok, st["status"]))
        return
    cond = [norm1(ctx, m)*norm1(ctx, inverse(ctx, m) if m else []) for m in (a, b)]
    for (q, c) in enumerate(cond):
        ctx.assume(ctx.Or(c < tol[q]*ctx.frac(999, 1000), c > tol[q]*ctx.frac(1001, 1000)))
    ctx.eq("condition number of the electric system", st["cond_electric"], cond[0])
    ctx.eq("condition number of the magnetic system", st["cond_magnetic"], cond[1])
    want = ctx.And(cond[0] < tol[0], cond[1] < tol[1])
    ctx.check("condition flag", ctx.Iff(ok, want))
    ctx.check("condition flag of the status", ctx.Iff(st["status"], want))


HARNESSES = []
for (nc, nm, sol, k, init) in ((1, 1, "gmres", 2, True), (1, 1, "gcrot", 1, False), (2, 0, "gmres", 0, True), (1, 2, "gcrot", 2, True), (2, 1, "gmres", 1, False)):
    HARNESSES.append(H("ops/direct/%d%d/%s" % (nc, nm, sol), h_direct, nc=nc, nm=nm, solver=sol, k=k, init=init, mode="ops"))
for (nc, nm, sol, k, init) in ((1, 1, "gmres", 1, True), (1, 0, "gcrot", 1, False), (1, 1, "gcrot", 2, False), (2, 1, "gmres", 0, False)):
    HARNESSES.append(H("status/direct/%d%d/%s" % (nc, nm, sol), h_direct, nc=nc, nm=nm, solver=sol, k=k, init=init))
HARNESSES.append(H("power/gmres/3", h_direct, nc=1, nm=0, solver="gmres", k=3, power=True))
HARNESSES.append(H("power/gcrot/2", h_direct, nc=1, nm=0, solver="gcrot", k=2, power=True, init=False))
for (nc, nm, k, init) in ((1, 1, 1, True), (1, 1, 2, False), (2, 1, 1, True), (1, 2, 2, True)):
    HARNESSES.append(H("ops/seg/%d%d%d" % (nc, nm, k), h_seg, nc=nc, nm=nm, n_max=k, init=init, mode="ops"))
for (nc, nm, k, init) in ((1, 1, 1, True), (1, 0, 2, True), (1, 0, 3, False), (1, 1, 2, False)):
    HARNESSES.append(H("status/seg/%d%d%d" % (nc, nm, k), h_seg, nc=nc, nm=nm, n_max=k, init=init))
for (nc, nm) in ((1, 0), (1, 1), (2, 0), (2, 1), (0, 1)):
    HARNESSES.append(H("cond/%d%d" % (nc, nm), h_cond, nc=nc, nm=nm))
HARNESSES.append(H("cond/off", h_cond, nc=1, nm=1, check=False))
HARNESSES.append(H("power/deep", h_direct, tier="thorough", nc=1, nm=0, solver="gmres", k=4, power=True))
HARNESSES.append(H("status/seg/deep", h_seg, tier="thorough", nc=1, nm=0, n_max=4, init=True))
