"""Green functions and coupling tensors."""

import itertools
from fractions import Fraction
from .common import H, unlin, total

BOUNDS = ("grids up to 4x1x1, 3x2x1 and 2x2x2 and single index vectors up to 3 voxels; symbolic positive voxel dimensions and far-field threshold; logarithm and arctangent are uninterpreted functions")
ASSUMPTIONS = ["exact arithmetic in place of floating point (cancellation is the subject of P25)", "the relative distance is not equal to the threshold (except the self term)",
               "lemma harnesses: the differentiation rules of sqrt, log and arctan; log(a)+log(b) = 2*log(c) for a*b = c^2 and the oddness of arctan"]


# ---------------------------------------------------------------- reference integrals

def zero(v):
    """Structural zero."""
    return isinstance(v, (int, float, Fraction)) and v == 0


def term(ctx, coef, fct, arg):
    if zero(coef):
        return 0
    return coef*fct(arg())


def ref6(ctx, x, y, z):
    """Function with the sixth mixed derivative 1/r (Hoer and Love)."""
    r2 = x*x+y*y+z*z
    r = 0 if zero(r2) else ctx.sqrt(r2)
    (log, atan) = (ctx.np.log, ctx.np.arctan)

    def lg(a, b, c):
        return term(ctx, a*(30*b*b*c*c-5*b*b*b*b-5*c*c*c*c), log, lambda: a+r)

    def at(a, b, c):
        return term(ctx, -20*a*a*a*b*c, atan, lambda: ctx.frac(b*c, a*r))
    alg = 2*r*(x*x*x*x+y*y*y*y+z*z*z*z-3*x*x*y*y-3*y*y*z*z-3*x*x*z*z)
    return ctx.frac(1, 120)*(alg+lg(x, y, z)+lg(y, z, x)+lg(z, x, y)+at(x, y, z)+at(y, z, x)+at(z, x, y))


def ref5(ctx, x, y, z):
    """Derivative of ref6 with respect to z."""
    r2 = x*x+y*y+z*z
    if zero(r2):
        return 0
    r = ctx.sqrt(r2)
    (log, atan) = (ctx.np.log, ctx.np.arctan)

    def quo(num, den):
        return 0 if zero(num) else num*ctx.frac(1, r)*(ctx.frac(1, den()) if den is not None else 1)
    out = quo(2*z*(x*x*x*x+y*y*y*y+z*z*z*z-3*x*x*y*y-3*y*y*z*z-3*x*x*z*z), None)
    out = out+2*r*(4*z*z*z-6*y*y*z-6*x*x*z)
    for (a, b) in ((x, y), (y, x)):
        # a*(30 b^2 z^2-5 b^4-5 z^4)*log(a+r)
        out = out+term(ctx, a*(60*b*b*z-20*z*z*z), log, lambda: a+r)
        out = out+quo(a*(30*b*b*z*z-5*b*b*b*b-5*z*z*z*z)*z, lambda: a+r)
        # -20*a^3*b*z*atan(b*z/(a*r))
        out = out+term(ctx, -20*a*a*a*b, atan, lambda: ctx.frac(b*z, a*r))
        out = out+quo(-20*a*a*a*b*z*a*b, lambda: a*a+z*z)
    # z*(30 x^2 y^2-5 x^4-5 y^4)*log(z+r)
    c = 30*x*x*y*y-5*x*x*x*x-5*y*y*y*y
    out = out+term(ctx, c, log, lambda: z+r)+quo(z*c, None)
    # -20*z^3*x*y*atan(x*y/(z*r))
    out = out+term(ctx, -60*z*z*x*y, atan, lambda: ctx.frac(x*y, z*r))
    out = out+quo(20*z*z*z*x*y*x*y*(r2+z*z), lambda: (x*x+z*z)*(y*y+z*z))
    return ctx.frac(1, 120)*out


D2 = ((-1, 1), (0, -2), (1, 1))


def mult(d, i):
    """Coordinate d*i: structural zero for a zero index."""
    return 0 if i == 0 else d*i


def num_(ctx, q):
    q = Fraction(q)
    return ctx.frac(q.numerator, q.denominator) if q.denominator != 1 else int(q)


def green6(ctx, d, idx):
    out = 0
    for ((a, wa), (b, wb), (c, wc)) in itertools.product(D2, D2, D2):
        p = [mult(d[k], num_(ctx, Fraction(idx[k])+o)) for (k, o) in enumerate((a, b, c))]
        out = out+wa*wb*wc*ref6(ctx, *p)
    return ctx.frac(out, 4*ctx.pi)


def green5(ctx, d, idx):
    out = 0
    for ((a, wa), (b, wb), (c, wc)) in itertools.product(D2, D2, ((Fraction(1, 2), 1), (-Fraction(1, 2), -1))):
        p = [mult(d[k], num_(ctx, Fraction(idx[k])+o)) for (k, o) in enumerate((a, b, c))]
        out = out+wa*wb*wc*ref5(ctx, *p)
    return ctx.frac(out, 4*ctx.pi)


def distance(ctx, d, idx):
    p = [mult(d[k], num_(ctx, Fraction(idx[k]))) for k in range(3)]
    return ctx.sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2])


def far6(ctx, d, idx):
    v = d[0]*d[1]*d[2]
    return ctx.frac(v*v, 4*ctx.pi*distance(ctx, d, idx))


def far5(ctx, d, idx):
    return ctx.frac(d[0]*d[1]*(d[0]*d[1]*d[2]), 4*ctx.pi*distance(ctx, d, idx))


def coupling(ctx, d, idx, k, fct):
    """Coupling coefficient of the component k."""
    perm = {0: (1, 2, 0), 1: (0, 2, 1), 2: (0, 1, 2)}[k]
    sign = {0: 1, 1: -1, 2: 1}[k]
    dp = [d[a] for a in perm]
    ip = [Fraction(idx[a]) for a in perm]
    h = Fraction(1, 2)
    diff = fct(ctx, dp, ip[:2]+[ip[2]-h])-fct(ctx, dp, ip[:2]+[ip[2]+h])
    return sign*ctx.frac(diff, d[0]*d[1]*d[2]*d[k])


def close(ctx, label, a, b, scale=None):
    """Equality, with a tolerance for the cancellation in the native runs."""
    if ctx.sym:
        ctx.eq(label, a, b)
    else:
        s = max(abs(a), abs(b), scale or 0)
        ctx.check(label+": %r, expected %r" % (a, b), abs(a-b) <= 1e-4*s+1e-300)


def dimensions(ctx, fixed=None):
    if fixed is not None:
        return [ctx.num(v) if ctx.sym else float(v) for v in fixed]
    d = [ctx.real("d"+a, 0.25, 4, pos=True) if not ctx.sym else ctx.real("d"+a, pos=True) for a in "xyz"]
    if not ctx.sym:
        # the native runs are subject to cancellation
        ctx.assume(max(d) <= 8*min(d))
    return d


def scale6(d):
    v = d[0]*d[1]*d[2]
    return v*v/max(d)*1e-3


# ---------------------------------------------------------------- harnesses

def h_ana(ctx, kind, idx, fixed=None):
    g = ctx.load("pypeec.lib_matrix.green_function")
    d = dimensions(ctx, fixed)
    arr = ctx.arr([[num_(ctx, v) for v in p] for p in idx], "i" if kind == "6D" else "f")
    res = ctx.lst(g.get_green_ana(ctx.arr(list(d), "f"), arr, kind))
    ctx.check("number of values", len(res) == len(idx))
    for (p, r) in zip(idx, res):
        e = green6(ctx, d, p) if kind == "6D" else green5(ctx, d, p)
        close(ctx, "analytical %s integral" % kind, r, e, None if ctx.sym else scale6(d) if kind == "6D" else scale6(d)/d[2])


def h_num(ctx, kind, idx):
    g = ctx.load("pypeec.lib_matrix.green_function")
    d = dimensions(ctx)
    arr = ctx.arr([[num_(ctx, v) for v in p] for p in idx], "i" if kind == "6D" else "f")
    res = ctx.lst(g.get_green_num(ctx.arr(list(d), "f"), arr, kind))
    ctx.check("number of values", len(res) == len(idx))
    for (p, r) in zip(idx, res):
        ctx.eq("point formula %s" % kind, r, far6(ctx, d, p) if kind == "6D" else far5(ctx, d, p))


def h_invalid(ctx, what):
    g = ctx.load("pypeec.lib_matrix.green_function")
    d = dimensions(ctx)
    f = g.get_green_ana if what == "ana" else g.get_green_num
    (err, _) = ctx.raises(f, ctx.arr(list(d), "f"), ctx.arr([[1, 0, 0]], "i"), "7D")
    ctx.check("error for an unknown integral", err is not None)
    ctx.check("no value for no index", len(ctx.lst(f(ctx.arr(list(d), "f"), ctx.np.zeros((0, 3), dtype=ctx.np.int64), "6D"))) == 0)


def threshold(ctx, mode):
    if mode == "sym":
        return ctx.real("thr", 0, 20)
    return ctx.num(mode)


def is_near(ctx, d, p, thr):
    if p == (0, 0, 0):
        return True
    dis = distance(ctx, d, p)
    big = d[0]
    for v in d[1:]:
        big = ctx.If(v > big, v, big)
    if ctx.sym:
        ctx.assume(ctx.Not(ctx.eq_cond(dis, thr*big)))
    else:
        ctx.assume(abs(dis-thr*big) > 1e-6*dis)
    return bool(dis < thr*big)


def cells(n):
    return [unlin(v, n) for v in range(n[0]*n[1]*n[2])]


def order(ctx, d):
    """One order of the dimensions at a time."""
    for (a, b) in ((0, 1), (1, 2), (0, 2)):
        bool(d[a] < d[b])


def h_green(ctx, n, thr, fixed=None):
    st = ctx.load("pypeec.lib_solver.system_tensor")
    d = dimensions(ctx, fixed)
    t = threshold(ctx, thr)
    if ctx.sym:
        order(ctx, d)
    near = {p: is_near(ctx, d, p, t) for p in cells(n)}
    res = st.get_green_tensor(list(n), list(d), t)
    ctx.check("shape of the tensor", tuple(int(v) for v in res.shape) == tuple(n)+(1,))
    for p in cells(n):
        e = green6(ctx, d, p) if near[p] else far6(ctx, d, p)
        close(ctx, "near coefficient" if near[p] else "far coefficient", res[p+(0,)], e, None if ctx.sym else scale6(d))
    close(ctx, "self term", st.get_green_self(list(d)), res[0, 0, 0, 0])


def h_coupling(ctx, n, thr, fixed=None):
    st = ctx.load("pypeec.lib_solver.system_tensor")
    d = dimensions(ctx, fixed)
    t = threshold(ctx, thr)
    if ctx.sym:
        order(ctx, d)
    near = {p: is_near(ctx, d, p, t) for p in cells(n)}
    ctx.check("no tensor without magnetic material", st.get_coupling_tensor(list(n), list(d), t, False) is None)
    res = st.get_coupling_tensor(list(n), list(d), t, True)
    ctx.check("shape of the tensor", tuple(int(v) for v in res.shape) == tuple(n)+(3,))
    for p in cells(n):
        for k in range(3):
            s = None if ctx.sym else scale6(d)/(d[0]*d[1]*d[2]*d[k])
            e = coupling(ctx, d, p, k, green5 if near[p] else far5)
            close(ctx, "near coupling" if near[p] else "far coupling", res[p+(k,)], e, s)
            if p[k] == 0 and not near[p]:
                close(ctx, "coupling on the zero plane", res[p+(k,)], 0, s)


def h_perm(ctx, n, perm):
    """Permuting the axes of the structure permutes the tensor."""
    st = ctx.load("pypeec.lib_solver.system_tensor")
    d = dimensions(ctx)
    t = threshold(ctx, "sym")
    if ctx.sym:
        order(ctx, d)
    for p in cells(n):
        is_near(ctx, d, p, t)
    a = st.get_green_tensor(list(n), list(d), t)
    b = st.get_green_tensor([n[k] for k in perm], [d[k] for k in perm], t)
    for p in cells(n):
        close(ctx, "permuted coefficient", b[tuple(p[k] for k in perm)+(0,)], a[p+(0,)], None if ctx.sym else scale6(d))


# ---------------------------------------------------------------- lemmas on the reference integrals

class Ex:
    """Sum of monomials x^a y^b z^c r^e sx^f sy^g sz^h * (1 or a logarithm or an arctangent), sx = y^2+z^2, ..."""

    def __init__(self, t=None):
        self.t = {k: v for (k, v) in (t or {}).items() if v != 0}

    def __add__(self, o):
        t = dict(self.t)
        for (k, v) in o.t.items():
            t[k] = t.get(k, 0)+v
        return Ex(t)

    def scaled(self, c, e):
        return Ex({(tuple(p+q for (p, q) in zip(k[0], e)), k[1]): v*c for (k, v) in self.t.items()})

    def diff(self, ax):
        out = Ex()
        for ((e, b), v) in self.t.items():
            m = Ex({(e, b): v})
            # powers of the coordinates, of r, and of the s
            if e[ax]:
                out = out+m.scaled(e[ax], _e({ax: -1}))
            if e[3]:
                out = out+m.scaled(e[3], _e({ax: 1, 3: -2}))
            for s in range(3):
                if s != ax and e[4+s]:
                    out = out+m.scaled(2*e[4+s], _e({ax: 1, 4+s: -1}))
            if b:
                one = Ex({(e, ""): v})
                k = "xyz".index(b[1])
                (p, q) = [a for a in range(3) if a != k]
                if b[0] == "L":
                    # log(u+r), r^2 = u^2+s
                    if ax == k:
                        out = out+one.scaled(1, _e({3: -1}))
                    else:
                        out = out+one.scaled(1, _e({ax: 1, 4+k: -1}))+one.scaled(-1, _e({ax: 1, k: 1, 3: -1, 4+k: -1}))
                else:
                    # atan(p*q/(u*r))
                    if ax == k:
                        out = out+one.scaled(-1, _e({p: 1, q: 1, 3: -1, 4+q: -1}))+one.scaled(-1, _e({p: 1, q: 1, 3: -1, 4+p: -1}))
                    else:
                        o = p if ax == q else q
                        # s of the coordinate o: u^2+ax^2
                        out = out+one.scaled(1, _e({k: 1, o: 1, 3: -1, 4+o: -1}))
        return out


def _e(d):
    return tuple(d.get(i, 0) for i in range(7))


def symbolic6():
    out = Ex()
    for k in range(3):
        out = out+Ex({(_e({k: 4, 3: 1}), ""): Fraction(2, 120)})
        (p, q) = [a for a in range(3) if a != k]
        out = out+Ex({(_e({p: 2, q: 2, 3: 1}), ""): Fraction(-6, 120)})
        b = "L"+"xyz"[k]
        out = out+Ex({(_e({k: 1, p: 2, q: 2}), b): Fraction(30, 120), (_e({k: 1, p: 4}), b): Fraction(-5, 120), (_e({k: 1, q: 4}), b): Fraction(-5, 120)})
        out = out+Ex({(_e({k: 3, p: 1, q: 1}), "A"+"xyz"[k]): Fraction(-20, 120)})
    return out


def evaluate(ctx, ex, xyz, basis, common=True):
    """Value of an expression times r^a*sx^b*sy^c*sz^d (no denominators), and the factor."""
    (x, y, z) = xyz
    r = ctx.sqrt(x*x+y*y+z*z)
    val = [x, y, z, r, y*y+z*z, x*x+z*z, x*x+y*y]
    low = [min([0]+[k[0][i] for k in ex.t]) for i in range(7)]

    def mono(e):
        m = 1
        for i in range(7):
            for _ in range(e[i]):
                m = m*val[i]
        return m
    f = mono([-v for v in low])
    groups = {}
    for ((e, b), v) in ex.t.items():
        groups[b] = groups.get(b, 0)+ctx.frac(v.numerator, v.denominator)*mono([p-q for (p, q) in zip(e, low)])
    return groups, f, r


def positive_point(ctx):
    return [ctx.real(a, 0.5, 2, pos=True) if not ctx.sym else ctx.real(a, pos=True) for a in "xyz"]


def h_lemma_value(ctx):
    """The expression of the derivative lemma is the reference integral."""
    xyz = positive_point(ctx)
    (g, f, r) = evaluate(ctx, symbolic6(), xyz, None)
    (x, y, z) = xyz
    (log, atan) = (ctx.np.log, ctx.np.arctan)
    b = {"": 1, "Lx": log(x+r), "Ly": log(y+r), "Lz": log(z+r), "Ax": atan(ctx.frac(y*z, x*r)), "Ay": atan(ctx.frac(z*x, y*r)), "Az": atan(ctx.frac(x*y, z*r))}
    ctx.eq("same function", total([g[k]*b[k] for k in g]), f*ref6(ctx, x, y, z))


def h_lemma6(ctx):
    """The sixth mixed derivative is 1/r."""
    ex = symbolic6()
    for ax in (0, 0, 1, 1, 2, 2):
        ex = ex.diff(ax)
    xyz = positive_point(ctx)
    (g, f, r) = evaluate(ctx, ex, xyz, None)
    for k in ("Lx", "Ly", "Lz", "Ax", "Ay", "Az"):
        ctx.eq("no transcendental part", g.get(k, 0), 0)
    ctx.eq("inverse distance", g.get("", 0)*r, f)


def h_lemma5(ctx):
    """ref5 is the derivative of ref6."""
    xyz = positive_point(ctx)
    (g, f, r) = evaluate(ctx, symbolic6().diff(2), xyz, None)
    (x, y, z) = xyz
    (log, atan) = (ctx.np.log, ctx.np.arctan)
    b = {"": 1, "Lx": log(x+r), "Ly": log(y+r), "Lz": log(z+r), "Ax": atan(ctx.frac(y*z, x*r)), "Ay": atan(ctx.frac(z*x, y*r)), "Az": atan(ctx.frac(x*y, z*r))}
    ctx.eq("same derivative", total([g[k]*b[k] for k in g]), f*ref5(ctx, x, y, z))


def h_lemma_zero(ctx, flat):
    """The second difference of ref5 along z vanishes at z = 0 (the coupling on the zero plane)."""
    xyz = positive_point(ctx)
    (x, y, z) = [0 if a in flat else v for (a, v) in zip("xyz", xyz)]
    if ctx.sym:
        (log, atan) = (ctx.np.log, ctx.np.arctan)
        r = ctx.sqrt(x*x+y*y+z*z)
        if not flat == "xy":
            r0 = ctx.sqrt(x*x+y*y)
            ctx.assume(ctx.eq_cond(log(z+r)+log(r-z), 2*log(r0)))
        for (a, b) in ((x, y), (y, x)):
            if not zero(a) and not zero(b):
                ctx.assume(ctx.eq_cond(atan(ctx.frac(-b*z, a*r)), -atan(ctx.frac(b*z, a*r))))
        if not zero(x) and not zero(y):
            ctx.assume(ctx.eq_cond(atan(ctx.frac(x*y, -z*r)), -atan(ctx.frac(x*y, z*r))))
    v = ref5(ctx, x, y, z)+ref5(ctx, x, y, -z)-2*ref5(ctx, x, y, 0)
    close(ctx, "second difference", v, 0, 1.0)


HARNESSES = []
I6 = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 1), (1, 1, 0), (1, 0, 3), (0, 1, 1), (1, 1, 1), (2, 1, 3), (3, 2, 2)]
HALF = Fraction(1, 2)
I5 = [(0, 0, HALF), (0, 0, -HALF), (1, 0, HALF), (0, 1, -HALF), (1, 1, 3*HALF), (2, 1, HALF), (0, 0, 5*HALF), (2, 3, 3*HALF)]
for p in I6:
    HARNESSES.append(H("ana6/%d%d%d" % p, h_ana, kind="6D", idx=[p]))
for p in I5:
    HARNESSES.append(H("ana5/%d%d%g" % (p[0], p[1], float(p[2])), h_ana, kind="5D", idx=[p]))
HARNESSES.append(H("ana6/all", h_ana, kind="6D", idx=I6[::-1]))
HARNESSES.append(H("num6", h_num, kind="6D", idx=I6[1:]))
HARNESSES.append(H("num5", h_num, kind="5D", idx=I5))
HARNESSES.append(H("invalid/ana", h_invalid, what="ana"))
HARNESSES.append(H("invalid/num", h_invalid, what="num"))
for (n, thr, tier) in (((2, 1, 1), "sym", "quick"), ((1, 3, 1), "sym", "quick"), ((1, 1, 4), "sym", "quick"), ((2, 2, 1), "sym", "quick"), ((1, 2, 2), "sym", "quick"), ((2, 2, 2), "sym", "thorough"),
                       ((3, 2, 1), "sym", "thorough"), ((2, 2, 2), 0, "quick"), ((2, 2, 2), 20, "quick"), ((1, 1, 1), 0, "quick"), ((3, 2, 2), 1.5, "quick")):
    fixed = (1, 2, 0.75) if n == (3, 2, 2) else None
    nm = "%d%d%d/%s" % (n+(thr,))
    HARNESSES.append(H("green/"+nm, h_green, tier=tier, n=n, thr=thr, fixed=fixed))
    HARNESSES.append(H("coupling/"+nm, h_coupling, tier=tier, n=n, thr=thr, fixed=fixed))
for fixed in ((1, 2, 0.75), (3, 1, 1), (0.5, 0.5, 4)):
    for fct in (h_green, h_coupling):
        HARNESSES.append(H("%s/fixed/%g-%g-%g" % ((fct.__name__[2:],)+fixed), fct, n=(2, 3, 2), thr="sym", fixed=fixed))
for (n, perm) in (((2, 1, 1), (1, 0, 2)), ((1, 2, 1), (2, 0, 1)), ((2, 1, 2), (0, 2, 1)), ((1, 1, 3), (2, 1, 0))):
    HARNESSES.append(H("permutation/%d%d%d/%d%d%d" % (n+perm), h_perm, n=n, perm=perm))
for (nm, f) in (("function", h_lemma_value), ("6D", h_lemma6), ("5D", h_lemma5)):
    HARNESSES.append(H("lemma/"+nm, f))
for flat in ("", "x", "y", "xy"):
    HARNESSES.append(H("lemma/zero/%s" % flat, h_lemma_zero, flat=flat))
