"""Matrix-vector operators against the defining sums."""

from .common import H, unlin, total

BOUNDS = ("grids up to 3x2x2 (full index sets) and 2x2x2 with 2-3 arbitrary distinct indices; tensor, vector entries, and "
          "indices symbolic; exact DFT for the FFT length 2, 4, 6 (grid length 1, 2, 3)")
ASSUMPTIONS = ["real arithmetic in place of floating point",
               "the FFT libraries compute the discrete Fourier transform",
               "coupling tensor components vanish on their zero plane (property P21)",
               "CuPy/MKL/FFTW back ends are not installed and not covered"]

FFT = {"library": "SciPy", "scipy_worker": 1, "fftw_thread": 1, "fftw_timeout": 100, "fftw_byte_align": 16, "matrix_split": True}


def tensor(ctx, name, n):
    nd = 3 if name == "coupling" else 1
    t = []
    for ix in range(n[0]):
        t.append([])
        for iy in range(n[1]):
            t[-1].append([])
            for iz in range(n[2]):
                row = []
                for k in range(nd):
                    if name == "coupling" and (ix, iy, iz)[k] == 0:
                        row.append(ctx.num(0.0))
                    else:
                        row.append(ctx.real("T%d%d%d_%d" % (ix, iy, iz, k)))
                t[-1][-1].append(row)
    return t, ctx.arr(t, "f")


def coeff(name, n, t, i, j):
    """Definition of the matrix entry (output index i, input index j); 0 when unrelated."""
    nv = n[0]*n[1]*n[2]
    (ci, vi) = divmod(i, nv)
    (cj, vj) = divmod(j, nv)
    p = unlin(vi, n)
    q = unlin(vj, n)
    a = t[abs(p[0]-q[0])][abs(p[1]-q[1])][abs(p[2]-q[2])]
    if name == "potential":
        return a[0]
    if name == "inductance":
        return a[0] if ci == cj else 0
    if ci == cj:
        return 0
    k = 3-ci-cj
    s = 1 if ci < cj else -1
    if p[k]-q[k] < 0:
        s = -s
    return s*a[k]


def setup(ctx, method):
    mt = "direct" if method == "direct" else "fft"
    mf = ctx.load("pypeec.lib_matrix.multiply_fft")
    ft = ctx.load("pypeec.lib_matrix.fourier_transform")
    opt = dict(FFT)
    if mt == "fft":
        (lib, split) = method.split("/")
        opt["library"] = lib
        opt["matrix_split"] = split == "split"
    mf.set_options(opt)
    ft.set_options(opt)
    return mt, ctx.load("pypeec.lib_matrix.matrix_multiply")


def get_ops(mm, name, idx_out, idx_in, mat, mt):
    if name == "potential":
        return [(mm.get_operator_potential(idx_in, mat, mt), False)]
    if name == "inductance":
        return [(mm.get_operator_inductance(idx_in, mat, mt), False)]
    (f, r) = mm.get_operator_coupling(idx_out, idx_in, mat, mt)
    return [(f, False), (r, True)]


def h_full(ctx, name, n, method, out, inp):
    """Given index lists, arbitrary tensor and vector."""
    (mt, mm) = setup(ctx, method)
    (t, mat) = tensor(ctx, name, n)
    idx_out = ctx.arr(out, "i")
    idx_in = ctx.arr(inp, "i")
    for (op, flip) in get_ops(mm, name, idx_out, idx_in, mat, mt):
        (rows, cols) = (inp, out) if flip else (out, inp)
        tag = "r" if flip else "f"
        x = [ctx.cplx("x%s%d" % (tag, j)) for j in range(len(cols))]
        vec = ctx.arr(x, "c")
        res = op(vec)
        exp = []
        for i in rows:
            exp.append(total([(coeff(name, n, t, j, i) if flip else coeff(name, n, t, i, j))*v for (j, v) in zip(cols, x)]))
        ctx.eq("%s %s" % (name, "reverse" if flip else "forward"), res, ctx.arr(exp, "c"))
        # the operator can be applied again, and the input vector is untouched
        ctx.eq("input vector unchanged", vec, ctx.arr(x, "c"))
        res2 = op(ctx.arr([2*v for v in x], "c"))
        ctx.eq("second application", res2, ctx.arr([2*v for v in exp], "c"))
        ctx.eq("first result unchanged", res, ctx.arr(exp, "c"))


def h_sym(ctx, name, n, method, k_out, k_in):
    """Arbitrary distinct indices (all subsets and orders of the given sizes)."""
    (mt, mm) = setup(ctx, method)
    (t, mat) = tensor(ctx, name, n)
    nv = n[0]*n[1]*n[2]
    tot = nv if name == "potential" else 3*nv
    inp = [ctx.int("in%d" % j, 0, tot-1) for j in range(k_in)]
    for i in range(k_in):
        for j in range(i):
            ctx.assume(inp[i] != inp[j])
    if name == "coupling":
        out = [ctx.int("out%d" % j, 0, tot-1) for j in range(k_out)]
        for i in range(k_out):
            for j in range(i):
                ctx.assume(out[i] != out[j])
        # only the electric and magnetic voxels of the operator matter, they can overlap
    else:
        out = inp
    idx_out = ctx.arr(out, "i")
    idx_in = ctx.arr(inp, "i")
    for (op, flip) in get_ops(mm, name, idx_out, idx_in, mat, mt):
        tag = "r" if flip else "f"
        x = [ctx.cplx("x%s%d" % (tag, j)) for j in range(len(out if flip else inp))]
        res = op(ctx.arr(x, "c"))
        # the indices are concretised after the call (fork), for the definition
        o = [ctx.conc(i) for i in out]
        p = [ctx.conc(i) for i in inp]
        (rows, cols) = (p, o) if flip else (o, p)
        exp = []
        for i in rows:
            exp.append(total([(coeff(name, n, t, j, i) if flip else coeff(name, n, t, i, j))*v for (j, v) in zip(cols, x)]))
        ctx.eq("%s %s" % (name, "reverse" if flip else "forward"), res, ctx.arr(exp, "c"))


def perm(n, a, b=0):
    """A fixed scrambled order of range(n)."""
    lst = [(a*i+b) % n for i in range(n)]
    assert sorted(lst) == list(range(n))
    return lst


METHODS = ["NumPy/split", "NumPy/combined", "SciPy/split", "SciPy/combined", "direct"]
OPS = ("potential", "inductance", "coupling")


def idx_set(name, nv, kind, flip):
    """Index lists in scrambled order: all elements, or a part of them (components with no element included)."""
    tot = nv if name == "potential" else 3*nv
    full = sorted(range(tot), key=lambda i: (((7 if flip else 5)*i+3) % 13, i))
    if kind == "full":
        return full
    if kind == "part":
        # about half of the elements; different elements on both sides
        return [i for i in full if (i*(3 if flip else 2)+i//nv) % 5 in (0, 1, 3)] or full[:1]
    if kind == "axis":
        # elements of a single component on the input side, of two components on the output side
        keep = (1,) if flip else (0, 2)
        lst = [i for i in full if name == "potential" or i//nv in keep]
        return lst
    raise ValueError(kind)


HARNESSES = []


def add(kind, n, ops=OPS, methods=METHODS, tier="quick"):
    nv = n[0]*n[1]*n[2]
    for m in methods:
        for name in ops:
            out = idx_set(name, nv, kind, False)
            inp = idx_set(name, nv, kind, True) if name == "coupling" else out
            HARNESSES.append(H("%s%d%d%d/%s/%s" % (kind, *n, name, m), h_full, tier=tier, name=name, n=n, method=m, out=out, inp=inp))


add("full", (2, 2, 2))
add("part", (2, 2, 2))
add("axis", (2, 1, 2))
add("part", (3, 1, 2))
add("part", (1, 2, 3))
add("part", (2, 3, 1))
add("full", (1, 1, 1))
add("full", (3, 2, 1), tier="thorough")
add("full", (2, 2, 3), tier="thorough")
add("part", (3, 2, 2), tier="thorough")
add("part", (4, 1, 2), tier="thorough")
add("part", (1, 4, 2), tier="thorough")
for m in METHODS:
    HARNESSES.append(H("sym211/potential/"+m, h_sym, name="potential", n=(2, 1, 2), method=m, k_out=2, k_in=2))
    HARNESSES.append(H("sym211/inductance/"+m, h_sym, name="inductance", n=(2, 1, 1), method=m, k_out=2, k_in=2))
    HARNESSES.append(H("sym211/coupling/"+m, h_sym, name="coupling", n=(2, 1, 1), method=m, k_out=1, k_in=2))
    HARNESSES.append(H("sym222/potential/"+m, h_sym, tier="thorough", name="potential", n=(2, 2, 2), method=m, k_out=3, k_in=3))
    HARNESSES.append(H("sym221/inductance/"+m, h_sym, tier="thorough", name="inductance", n=(1, 2, 2), method=m, k_out=2, k_in=2))
    HARNESSES.append(H("sym112/coupling/"+m, h_sym, tier="thorough", name="coupling", n=(1, 1, 2), method=m, k_out=2, k_in=2))
