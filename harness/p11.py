"""Image and index meshers."""

from .common import H, lin

BOUNDS = ("images up to 2x2, 3x1, 1x3 pixels (all channels of all pixels symbolic), up to 2 images per layer, up to 3 layers with 0 to 3 repetitions, up to "
          "3 domains with up to 2 colours (concrete and symbolic); voxel lists with up to 3 symbolic indices in two domains")
ASSUMPTIONS = ["Pillow decodes an image to an array of rows (top first) of RGBA pixels"]


class Image:
    """An opened image."""
    def __init__(self, ctx, rows):
        self.ctx = ctx
        self.rows = rows
        self.size = (len(rows[0]), len(rows))
        self.width, self.height = self.size
        self.mode = "P"

    def convert(self, mode=None, *a, **k):
        assert mode == "RGBA"
        out = Image(self.ctx, self.rows)
        out.mode = mode
        return out

    def __array__(self, dtype=None, copy=None):
        import numpy as np
        assert self.mode == "RGBA"
        return np.array(self.rows, dtype=np.uint8 if dtype is None else dtype)

    def __symarray__(self):
        assert self.mode == "RGBA"
        return self.ctx.arr(self.rows, "i")


def images(ctx, spec):
    """Images {name: (nx, ny) or rows or None}; the opened files are the images."""
    img = {}
    for (name, s) in spec.items():
        if s is None:
            continue
        (nx, ny) = s
        img[name] = [[[ctx.int("%s_%d%d%s" % (name, x, y, q), 0, 255) for q in "rgba"] for x in range(nx)] for y in range(ny)]

    def open_(fp, mode="r", formats=None):
        if fp not in img:
            raise FileNotFoundError(fp)
        return Image(ctx, img[fp])
    ctx.stub({"PIL.Image": {"open": open_}})
    return img


def h_png(ctx, size, spec, colors, layers):
    (nx, ny) = size
    img = images(ctx, spec)
    mp = ctx.load("pypeec.lib_mesher.mesher_png")
    col = {}
    for (t, lst) in colors.items():
        col[t] = [[ctx.int("%s_%d%s" % (t, i, q), 0, 255) for q in "rgba"] if c == "any" else list(c) for (i, c) in enumerate(lst)]
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    c = [ctx.real("c"+a) for a in "xyz"]
    stack = [{"n_layer": k, "filename_list": list(f)} for (k, f) in layers]
    (err, res) = ctx.raises(mp.get_mesh, {"d": list(d), "c": list(c), "size": list(size)}, {t: [list(x) for x in v] for (t, v) in col.items()}, stack)
    files = [f for (_, lst) in layers for f in lst]
    valid = all(f in img and len(img[f]) == ny and len(img[f][0]) == nx for f in files) and all(len(x) == 4 for v in col.values() for x in v)
    ctx.check("accepted if and only if the images and colours are valid", (err is None) == valid)
    if err is not None:
        return
    (n2, d2, c2, dom, ref) = res
    nz = sum(k for (k, _) in layers)
    ctx.check("number of voxels", ctx.ints(n2) == [nx, ny, nz])
    ctx.eq("voxel size", ctx.lst(d2), d)
    ctx.eq("centre", ctx.lst(c2), c)
    ctx.check("domain names", sorted(dom.keys()) == sorted(col.keys()))
    for (t, cl) in col.items():
        got = ctx.ints(dom[t])
        ctx.check("no voxel is duplicated", len(set(got)) == len(got))
        ctx.check("voxels in the grid", all(0 <= v < nx*ny*nz for v in got))
        iz = 0
        for (k, lst) in layers:
            for q in range(k):
                for y in range(ny):
                    for x in range(nx):
                        # image row 0 is the top of the image (largest y)
                        hit = ctx.Or(*[ctx.And(*[img[f][ny-1-y][x][b] == w[b] for b in range(4)]) for f in lst for w in cl])
                        ctx.check("voxels of the coloured pixels", ctx.Iff(hit, lin(x, y, iz, (nx, ny, nz)) in got))
                iz += 1


def h_voxel(ctx, n, sizes):
    mv = ctx.load("pypeec.lib_mesher.mesher_voxel")
    nv = n[0]*n[1]*n[2]
    idx = {t: [ctx.int("%s%d" % (t, i), -2, nv+2) for i in range(k)] for (t, k) in sizes.items()}
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    c = [ctx.real("c"+a) for a in "xyz"]
    (err, res) = ctx.raises(mv.get_mesh, {"n": list(n), "d": list(d), "c": list(c)}, {t: list(v) for (t, v) in idx.items()})
    ok = ctx.And(True, *[ctx.And(0 <= x, x < nv) for v in idx.values() for x in v],
                 *[x != y for v in idx.values() for (i, x) in enumerate(v) for y in v[:i]])
    if err is not None:
        ctx.check("valid indices are accepted", ctx.Not(ok))
        return
    ctx.check("invalid indices are rejected", ok)
    (n2, d2, c2, dom, ref) = res
    ctx.check("number of voxels", ctx.ints(n2) == list(n))
    ctx.eq("voxel size", ctx.lst(d2), d)
    ctx.eq("centre", ctx.lst(c2), c)
    ctx.check("domain names", sorted(dom.keys()) == sorted(idx.keys()))
    for (t, v) in idx.items():
        got = ctx.lst(dom[t])
        ctx.check("number of indices", len(got) == len(v))
        ctx.check("given indices", ctx.And(True, *[ctx.Or(*[x == y for y in got]) for x in v]))


RED = (255, 0, 0, 255)
GRN = (0, 255, 0, 255)
TRA = (0, 0, 0, 0)
HARNESSES = []
IMG = [
    ((2, 2), {"i": (2, 2)}, {"a": [RED], "b": [GRN, TRA]}, [(1, ["i"])]),
    ((3, 1), {"i": (3, 1)}, {"a": [RED, GRN]}, [(2, ["i"])]),
    ((1, 3), {"i": (1, 3)}, {"a": [RED], "b": [GRN]}, [(1, ["i"]), (2, ["i"])]),
    ((2, 1), {"i": (2, 1), "j": (2, 1)}, {"a": [RED], "b": ["any"]}, [(1, ["i", "j"])]),
    ((1, 2), {"i": (1, 2), "j": (1, 2)}, {"b": [RED], "a": [GRN]}, [(2, ["j"]), (1, ["i"])]),
    ((2, 1), {"i": (2, 1), "j": (2, 1)}, {"a": ["any", RED]}, [(1, ["i"]), (3, ["j"]), (1, ["i"])]),
    ((2, 1), {"i": (2, 1)}, {"a": [RED], "b": [RED, GRN], "c": []}, [(0, ["i"]), (1, ["i"]), (1, [])]),
]
for (i, (size, spec, col, lay)) in enumerate(IMG):
    HARNESSES.append(H("png/%d" % i, h_png, size=size, spec=spec, colors=col, layers=lay))
BAD = [
    ((2, 1), {"i": (1, 2)}, {"a": [RED]}, [(1, ["i"])]),
    ((2, 2), {"i": (2, 1)}, {"a": [RED]}, [(1, ["i"])]),
    ((1, 1), {"i": (1, 1), "j": (2, 1)}, {"a": [RED]}, [(1, ["i", "j"])]),
    ((1, 1), {"i": (1, 1)}, {"a": [RED]}, [(1, ["i"]), (1, ["missing"])]),
    ((1, 1), {"i": (1, 1)}, {"a": [(255, 0, 0)]}, [(1, ["i"])]),
    ((1, 1), {"i": (1, 1)}, {"a": [(255, 0, 0, 255, 0)]}, [(1, ["i"])]),
]
for (i, (size, spec, col, lay)) in enumerate(BAD):
    HARNESSES.append(H("bad/%d" % i, h_png, size=size, spec=spec, colors=col, layers=lay))
for (n, s) in (((2, 3, 1), {"a": 3}), ((2, 2, 2), {"a": 2, "b": 2}), ((1, 1, 3), {"a": 0, "b": 1}), ((3, 1, 2), {"b": 2, "a": 1})):
    HARNESSES.append(H("voxel/%d%d%d" % n, h_voxel, n=n, sizes=s))
HARNESSES.append(H("png/deep/0", h_png, tier="thorough", size=(2, 2), spec={"i": (2, 2), "j": (2, 2)}, colors={"a": [RED], "b": [GRN]}, layers=[(1, ["i", "j"])]))
HARNESSES.append(H("png/deep/1", h_png, tier="thorough", size=(3, 2), spec={"i": (3, 2)}, colors={"a": [RED], "b": ["any"]}, layers=[(2, ["i"])]))
HARNESSES.append(H("voxel/deep", h_voxel, tier="thorough", n=(3, 3, 2), sizes={"a": 4, "b": 2}))
