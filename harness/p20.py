"""Extraction of the impedance matrix from the solutions."""

import itertools
from .common import H

BOUNDS = ("1 to 3 windings, up to 4 solutions; arbitrary symmetric complex impedance matrices, arbitrary terminal values and frequencies (DC and AC); excitations: arbitrary for one winding, "
          "arbitrary complex amplitudes of one winding per solution, and fixed complex currents (with more equations than unknowns and with insufficient rank) otherwise; up to two symmetry groups")
ASSUMPTIONS = ["exact arithmetic in place of floating point: the least-square solution of a full-rank system is exact", "resistances and self reactances are at least 0.01, the magnitude of the real and imaginary parts of the mutual impedances is larger than 0.01",
               "the frequencies of the solutions are equal or differ by more than one percent"]


def mat(ctx, rows, kind="c"):
    return ctx.arr([list(r) for r in rows], kind)


def tab(ctx, a, m, n):
    v = ctx.lst(a)
    ctx.check("matrix size", len(v) == m*n)
    return [v[i*n:(i+1)*n] for i in range(m)]


def impedance(ctx, n):
    z = [[None]*n for _ in range(n)]
    for i in range(n):
        for j in range(i+1):
            n2 = "Z%d%d" % (i, j)
            if i == j:
                v = ctx.real(n2+".re", 0.01, pos=True)+ctx.j*ctx.real(n2+".im", 0.01, pos=True)
            else:
                (re, im) = (ctx.real(n2+".re", nonzero=True), ctx.real(n2+".im"))
                ctx.assume(ctx.Or(re > 0.01, re < -0.01))
                ctx.assume(ctx.Or(im > 0.01, im < -0.01))
                v = re+ctx.j*im
            z[i][j] = z[j][i] = v
    return z


def currents(ctx, name, n):
    """List of excitations (a list of n currents per solution)."""
    if name == "one":
        lst = []
        for i in range(n):
            a = ctx.cplx("I%d" % i)
            ctx.assume(ctx.Not(ctx.And(ctx.eq_cond(ctx.re(a), 0), ctx.eq_cond(ctx.im(a), 0))))
            if not ctx.sym:
                ctx.assume(abs(a) > 1e-3)
            lst.append([a if k == i else 0*ctx.j for k in range(n)])
        return lst
    fixed = {"unit": [[1 if k == i else 0 for k in range(n)] for i in range(n)],
             "mix": [[1+2j, 3, -1j][:n], [2, -1+1j, 4][:n], [1j, 2-1j, 1][:n]][:max(n, 1)],
             "over": [[1, 1, 1][:n], [1, -1, 2j][:n], [0, 1j, 3][:n], [2, 0, 1][:n]],
             "few": [[1, 2, 1j][:n]],
             "same": [[1, 2, 3][:n], [2, 4, 6][:n], [1, 2, 3][:n]],
             "least": [[1, 0.5, 0.25][:n], [0, 1, 1][:n]]}[name]
    return [[ctx.num(complex(v).real)+ctx.num(complex(v).imag)*ctx.j for v in col] for col in fixed]


def product(ctx, z, i):
    n = len(z)
    out = []
    for r in range(n):
        s = 0*ctx.j
        for k in range(n):
            s = s+z[r][k]*i[k]
        out.append(s)
    return out


def terminal(ctx, cur, vol, freq):
    n = len(cur[0])
    return {"n_solution": len(cur), "n_winding": n, "freq": freq, "I_mat": mat(ctx, [[c[k] for c in cur] for k in range(n)]),
            "V_mat": mat(ctx, [[c[k] for c in vol] for k in range(n)])}


def rank(cols, n):
    """Number of independent impedance coefficients of fixed currents."""
    import numpy as np
    idx = [(i, j) for i in range(n) for j in range(i+1)]
    rows = []
    for c in cols:
        c = [complex(v) for v in c]
        for r in range(n):
            rows.append([c[j] if i == r else c[i] if j == r else 0 for (i, j) in idx])
    return np.linalg.matrix_rank(np.array(rows)), len(idx)


def check_matrix(ctx, res, z, freq, derived):
    n = len(z)
    got = tab(ctx, res["Z_mat"], n, n)
    ctx.eq("impedance matrix", got, z)
    ctx.eq("frequency", res["freq"], freq)
    ctx.check("number of windings", int(res["n_winding"]) == n)
    w = 2*ctx.pi*freq
    dc = not ctx.sym and freq == 0 or ctx.sym and isinstance(freq, int)
    r = [[ctx.re(v) for v in row] for row in z]
    ctx.eq("resistance matrix", tab(ctx, res["R_mat"], n, n), r)
    lm = tab(ctx, res["L_mat"], n, n)
    if dc:
        ctx.check("no inductance at DC", all(ctx.is_nan(v) for row in lm for v in row))
        ctx.check("no quality factor at DC", all(ctx.is_nan(v) for row in tab(ctx, res["Q_mat"], n, n) for v in row))
        ctx.check("no inductive coupling at DC", all(ctx.is_nan(v) for row in tab(ctx, res["k_L_mat"], n, n) for v in row))
    else:
        ctx.eq("reactance matrix", [[v*w for v in row] for row in lm], [[ctx.im(v) for v in row] for row in z])
    if not derived:
        return
    kr = tab(ctx, res["k_R_mat"], n, n)
    kl = tab(ctx, res["k_L_mat"], n, n)
    q = tab(ctx, res["Q_mat"], n, n)
    for i in range(n):
        for j in range(n):
            # k is x_ij/sqrt(x_ii*x_jj): the sign of x_ij and the squared value
            pairs = [("resistive coupling", kr[i][j], r)]
            if not dc:
                pairs.append(("inductive coupling", kl[i][j], lm))
                ctx.eq("quality factor", q[i][j]*r[i][j], ctx.im(z[i][j]))
            for (lab, k, x) in pairs:
                ctx.eq(lab, k*k*x[i][i]*x[j][j], x[i][j]*x[i][j])
                ctx.check(lab+" (sign)", ctx.And(ctx.Iff(k > 0, x[i][j] > 0), ctx.Iff(k < 0, x[i][j] < 0)))


def h_matrix(ctx, n, exc, freq, derived):
    m = ctx.load("pypeec.utils.matrix")
    z = impedance(ctx, n)
    f = 0 if freq == "dc" else ctx.real("f", pos=True)
    cur = currents(ctx, exc, n)
    vol = [product(ctx, z, c) for c in cur]
    t = terminal(ctx, cur, vol, f)
    (err, res) = ctx.raises(m.get_matrix, t)
    if exc != "one":
        fixed = {"few", "same", "least"}
        (rk, need) = rank([[complex(float(ctx.re(v)), float(ctx.im(v))) for v in c] for c in cur], n)
        if rk < need:
            ctx.check("error for a singular system", err is not None and exc in fixed)
            return
    if err is not None:
        raise err
    check_matrix(ctx, res, z, f, derived)


def h_symmetry(ctx, n, n_sol, sym, wrong=False):
    """The expansion applies every combination of the permutations to every solution."""
    m = ctx.load("pypeec.utils.matrix")
    f = ctx.real("f", pos=True)
    cur = [[ctx.cplx("I%d%d" % (s, k)) for k in range(n)] for s in range(n_sol)]
    vol = [[ctx.cplx("V%d%d" % (s, k)) for k in range(n)] for s in range(n_sol)]
    t = terminal(ctx, cur, vol, f)
    keep = {k: ctx.lst(t[k]) for k in ("I_mat", "V_mat")}
    if wrong:
        t["n_solution"] = n_sol+1
        (err, _) = ctx.raises(m.get_symmetry, t, sym)
        ctx.check("error for an invalid size", err is not None)
        return
    res = m.get_symmetry(t, sym)
    ctx.check("argument unchanged", ctx.And(*[ctx.eq_cond(x, y) for k in keep for (x, y) in zip(ctx.lst(t[k]), keep[k])]))
    ctx.eq("frequency", res["freq"], f)
    ctx.check("number of windings", int(res["n_winding"]) == n)
    want = []
    for s in range(n_sol):
        for combo in itertools.product(*sym):
            p = list(range(n))
            for perm in combo:
                p = [p[k] for k in perm]
            want.append(([cur[s][k] for k in p], [vol[s][k] for k in p]))
    ns = int(res["n_solution"])
    ctx.check("number of solutions", ns == len(want))
    gi = tab(ctx, res["I_mat"], n, ns)
    gv = tab(ctx, res["V_mat"], n, ns)
    got = [([gi[k][j] for k in range(n)], [gv[k][j] for k in range(n)]) for j in range(ns)]

    def same(a, b):
        return ctx.And(*[ctx.eq_cond(x, y) for q in (0, 1) for (x, y) in zip(a[q], b[q])])
    for w in want:
        ctx.check("permuted solution is present", ctx.Or(*[same(g, w) for g in got]))
    for g in got:
        ctx.check("only permuted solutions", ctx.Or(*[same(g, w) for w in want]))


def h_extract(ctx, sweeps, terms, names, freq):
    m = ctx.load("pypeec.utils.matrix")
    data, src = {}, {}
    f0 = 0 if freq == "dc" else ctx.real("f", pos=True)
    f1 = f0
    if freq == "two":
        f1 = ctx.real("g", pos=True)
        ctx.assume(ctx.Or(f1 > f0*ctx.frac(101, 100), f0 > f1*ctx.frac(101, 100)))
        ctx.assume(ctx.And(f0 > 1, f1 > 1) if ctx.sym else f0 > 0.1 and f1 > 0.1)
    for (i, s) in enumerate(["x", "y", "z"]):
        src[s] = {t: {"V": ctx.cplx("V%s%s" % (s, t)), "I": ctx.cplx("I%s%s" % (s, t))} for t in names}
        data[s] = {"freq": f1 if s == sweeps[-1] else f0, "source": {t: dict(v) for (t, v) in src[s].items()}}
    lst = [{"src": a, "sink": b} for (a, b) in terms]
    (err, t) = ctx.raises(m.get_extract, {"data_init": {}, "data_sweep": data}, list(sweeps), lst)
    if freq == "two":
        ctx.check("error for different frequencies", err is not None)
        return
    if err is not None:
        raise err
    ctx.eq("frequency", t["freq"], f0)
    ctx.check("sizes", int(t["n_winding"]) == len(terms) and int(t["n_solution"]) == len(sweeps))
    v = tab(ctx, t["V_mat"], len(terms), len(sweeps))
    i = tab(ctx, t["I_mat"], len(terms), len(sweeps))
    for (k, (a, b)) in enumerate(terms):
        for (j, s) in enumerate(sweeps):
            ctx.eq("terminal voltage", v[k][j], src[s][a]["V"]-src[s][b]["V"])
            ctx.eq("terminal current", 2*i[k][j], src[s][a]["I"]-src[s][b]["I"])


def h_chain(ctx, freq):
    """From the solutions of a symmetric component to its matrix."""
    m = ctx.load("pypeec.utils.matrix")
    f = 0 if freq == "dc" else ctx.real("f", pos=True)
    # windings 0 and 1 are interchangeable
    z = impedance(ctx, 3)
    (a, b, c) = (z[0][0], z[1][0], z[2][0])
    z = [[a, b, c], [b, a, c], [c, c, z[2][2]]]
    cur = [[1, 0, 0], [1j, 0, 2], [0, 1, 1]]
    cur = [[ctx.num(complex(v).real)+ctx.num(complex(v).imag)*ctx.j for v in col] for col in cur]
    data = {}
    for (s, i) in enumerate(cur):
        v = product(ctx, z, i)
        off = [ctx.cplx("o%d%d" % (s, k)) for k in range(3)]
        source = {}
        for k in range(3):
            source["p%d" % k] = {"V": v[k]+off[k], "I": i[k]}
            source["n%d" % k] = {"V": off[k], "I": -i[k]}
        data["s%d" % s] = {"freq": f, "source": source}
    t = m.get_extract({"data_init": {}, "data_sweep": data}, ["s2", "s0", "s1"], [{"src": "p%d" % k, "sink": "n%d" % k} for k in range(3)])
    t = m.get_symmetry(t, [[[0, 1, 2], [1, 0, 2]]])
    check_matrix(ctx, m.get_matrix(t), z, f, False)


HARNESSES = []
for n in (1, 2, 3):
    for exc in ("unit", "mix", "over", "few", "same", "one", "least"):
        for freq in ("dc", "ac"):
            HARNESSES.append(H("matrix/%d/%s/%s" % (n, exc, freq), h_matrix, n=n, exc=exc, freq=freq, derived=exc in ("unit", "mix", "over"),
                               tier="thorough" if (n, exc, freq) == (3, "one", "ac") else "quick"))
for (n, k, sym) in ((2, 1, [[[0, 1], [1, 0]]]), (2, 2, [[[1, 0]]]), (3, 1, [[[0, 1, 2], [1, 2, 0], [2, 0, 1]]]), (3, 2, [[[0, 1, 2], [1, 0, 2]], [[0, 1, 2], [0, 2, 1]]]),
                    (3, 1, [[[1, 2, 0]], [[0, 1, 2], [1, 0, 2]]]), (2, 2, []), (4, 1, [[[0, 1, 2, 3], [1, 0, 3, 2]], [[0, 1, 2, 3], [2, 3, 0, 1]]])):
    HARNESSES.append(H("symmetry/%d/%d/%s" % (n, k, "-".join("".join(map(str, p)) for g in sym for p in g)), h_symmetry, n=n, n_sol=k, sym=sym))
HARNESSES.append(H("symmetry/wrong", h_symmetry, n=2, n_sol=1, sym=[[[0, 1], [1, 0]]], wrong=True))
for (i, (sw, tm)) in enumerate(((["x"], [("a", "b")]), (["y", "x"], [("a", "b"), ("c", "b")]), (["z", "y", "x"], [("b", "a"), ("c", "d")]), (["x", "z"], [("d", "a"), ("b", "c"), ("a", "c")]))):
    for freq in ("dc", "ac", "two"):
        if freq != "two" or len(sw) > 1:
            HARNESSES.append(H("extract/%d/%s" % (i, freq), h_extract, sweeps=sw, terms=tm, names="abcd", freq=freq))
for freq in ("dc", "ac"):
    HARNESSES.append(H("chain/%s" % freq, h_chain, freq=freq))
