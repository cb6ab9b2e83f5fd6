"""Shape and STL meshers: size of the voxel structure and position of the voxels."""

import os
import tempfile
from .common import H, lin, total
from .shapes import Lib, in_box, in_poly, within

BOUNDS = ("shapes: up to 3 primitives (rectangles with symbolic corners and rectangular holes, buffered rectangles, concrete polygons, pads and traces) in up to 2 domains "
          "and 3 layers, grids up to 3x3 pixels, symbolic steps and user bounds; STL: up to 2 boxes (symbolic position, size, scale and offset) in up to 2 domains, grids up to 3x1x1 or 2x2x1")
ASSUMPTIONS = ["Shapely: union, difference, buffer are those of the point sets; Rasterio burns a pixel if and only if its centre is inside (pixel centres away from the boundaries)",
               "PyVista: select_enclosed_points selects the points inside, extract_points the cells with a selected corner; STL files are boxes"]


def prim(ctx, name, spec):
    """A primitive: (shape definition, predicate(x, y, margin), bounds). Margin: +1 grown, -1 shrunk, 0 exact."""
    typ = spec[0]
    if typ == "rect":
        (x0, y0) = (ctx.real(name+".x", -4, 4), ctx.real(name+".y", -4, 4))
        (w, h) = (ctx.real(name+".w", pos=True), ctx.real(name+".h", pos=True))
        b = (x0, y0, x0+w, y0+h)
        pts = [[b[0], b[1]], [b[2], b[1]], [b[2], b[3]], [b[0], b[3]]]
        data = {"buffer": None, "coord_shell": pts, "coord_holes": []}
        holes = []
        if len(spec) > 1 and spec[1] == "hole":
            # a hole strictly inside
            (fx, fy) = (w/4, h/4)
            hb = (x0+fx, y0+fy, x0+w-fx, y0+h-fy)
            holes = [hb]
            data["coord_holes"] = [[[hb[0], hb[1]], [hb[0], hb[3]], [hb[2], hb[3]], [hb[2], hb[1]]]]
        if len(spec) > 1 and spec[1] == "buffer":
            r = ctx.real(name+".r", pos=True)
            data["buffer"] = r

            def f(x, y, m):
                g = r*(1+m*0) if not m else r*ctx.frac(50+m, 50)
                return ctx.Or(in_box(ctx, (b[0]-g, b[1], b[2]+g, b[3]), x, y), in_box(ctx, (b[0], b[1]-g, b[2], b[3]+g), x, y), within(ctx, "pad", pts, g, x, y))
            return {"shape_type": "polygon", "shape_data": data}, f, (b[0]-r, b[1]-r, b[2]+r, b[3]+r)

        def f(x, y, m):
            (ex, ey) = (ctx.frac(m, 50)*w, ctx.frac(m, 50)*h)
            return ctx.And(in_box(ctx, (b[0]-ex, b[1]-ey, b[2]+ex, b[3]+ey), x, y),
                           *[ctx.Not(in_box(ctx, (q[0]+ex, q[1]+ey, q[2]-ex, q[3]-ey), x, y)) for q in holes])
        return {"shape_type": "polygon", "shape_data": data}, f, b
    if typ == "poly":
        pts = spec[1]
        # concrete polygon: shrunk and grown by moving the point
        off = {0: [(0, 0)], 1: [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)], -1: [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]}

        def f(x, y, m):
            e = ctx.frac(1, 100)
            v = [in_poly(ctx, pts, x+a*e, y+b*e) for (a, b) in off[m]]
            return ctx.Or(*v) if m >= 0 else ctx.And(*v)
        bnd = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
        return {"shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": [list(p) for p in pts], "coord_holes": []}}, f, bnd
    (pts, r) = (spec[1], spec[2])

    def f(x, y, m):
        return within(ctx, typ, pts, r, x, y, ctx.frac(50+m, 50))
    bnd = (min(p[0] for p in pts)-r, min(p[1] for p in pts)-r, max(p[0] for p in pts)+r, max(p[1] for p in pts)+r)
    key = {"pad": "diameter", "trace": "width"}[typ]
    return {"shape_type": typ, "shape_data": {key: 2*r, "coord": [list(p) for p in pts]}}, f, bnd


def h_shape(ctx, doms, layers, nxy, user=None, cz=False, opt=None):
    """doms: {tag: [(operation, layer list, primitive)]}; layers: [(number of layers, tag)]; user: user bounds."""
    ctx.eager_int()
    if ctx.sym:
        Lib(ctx).install()
    ms = ctx.load("pypeec.lib_mesher.mesher_shape")
    geo = {}
    ref = {}
    bnd = []
    tags = [t for (_, t) in layers]
    for (t, lst) in doms.items():
        geo[t] = []
        ref[t] = []
        for (i, (op, lay, spec)) in enumerate(lst):
            (shp, f, b) = prim(ctx, "%s%d" % (t, i), spec)
            geo[t].append(dict(shp, shape_layer=list(lay), shape_operation=op))
            ref[t].append((op, lay, f))
            if op == "add" and set(lay) & set(tags):
                bnd.append(b)
            if op == "sub" and user != "both":
                # the subtracted shape leaves the bounds unchanged: it is strictly inside
                q = [z for z in bnd if True][0]
                ctx.assume(ctx.And(b[0] > q[0]+(q[2]-q[0])/10, b[1] > q[1]+(q[3]-q[1])/10, b[2] < q[2]-(q[2]-q[0])/10, b[3] < q[3]-(q[3]-q[1])/10))
    (lo, hi) = (None, None)
    if user in ("min", "both"):
        lo = [ctx.real("lo"+a, -6, 6) for a in "xy"]
    if user in ("max", "both"):
        hi = [ctx.real("hi"+a, -6, 6) for a in "xy"]

    def pick(i, sign):
        if sign < 0 and lo is not None:
            return lo[i]
        if sign > 0 and hi is not None:
            return hi[i]
        r = None
        for b in bnd:
            v = b[i] if sign < 0 else b[i+2]
            r = v if r is None else ctx.If((v < r) if sign < 0 else (v > r), v, r)
        return r
    mn = [pick(i, -1) for i in range(2)]
    mx = [pick(i, +1) for i in range(2)]
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    # number of pixels (away from the ties of the rounding)
    for i in range(2):
        ctx.assume(ctx.And(mx[i]-mn[i] > d[i]*ctx.frac(51+100*(nxy[i]-1), 100), mx[i]-mn[i] < d[i]*ctx.frac(49+100*nxy[i], 100)))
    z0 = ctx.real("cz") if cz else None
    param = {"dx": d[0], "dy": d[1], "dz": d[2], "cz": z0, "simplify": None, "construct": None, "xy_min": lo and list(lo), "xy_max": hi and list(hi)}
    param.update(opt or {})
    stack = [{"n_layer": k, "tag_layer": t} for (k, t) in layers]
    res = ms.get_mesh(param, stack, geo)
    (n2, d2, c2, dom, _) = res
    n2 = ctx.ints(n2)
    (d2, c2) = (ctx.lst(d2), ctx.lst(c2))
    nz = sum(k for (k, _) in layers)
    ctx.check("number of voxels", n2 == [nxy[0], nxy[1], nz])
    ctx.eq("size of the structure", [n2[i]*d2[i] for i in range(3)], [mx[0]-mn[0], mx[1]-mn[1], nz*d[2]])
    ctx.eq("centre of the structure", c2, [(mx[0]+mn[0])/2, (mx[1]+mn[1])/2, z0 if cz else 0])
    ctx.check("domain names", sorted(dom.keys()) == sorted(doms.keys()))
    pix = {(x, y): ((mn[0]*(2*nxy[0]-2*x-1)+mx[0]*(2*x+1))/(2*nxy[0]), (mn[1]*(2*nxy[1]-2*y-1)+mx[1]*(2*y+1))/(2*nxy[1]))
           for x in range(nxy[0]) for y in range(nxy[1])}
    for t in doms:
        got = ctx.ints(dom[t])
        ctx.check("no voxel is duplicated", len(set(got)) == len(got))
        ctx.check("voxels in the grid", all(0 <= v < nxy[0]*nxy[1]*nz for v in got))
        iz = 0
        for (k, tag) in layers:
            add = [f for (op, lay, f) in ref[t] if op == "add" and tag in lay]
            sub = [f for (op, lay, f) in ref[t] if op == "sub" and tag in lay]
            for ((x, y), (px, py)) in pix.items():
                inside = ctx.And(ctx.Or(*[f(px, py, -1) for f in add]), ctx.Not(ctx.Or(*[f(px, py, 1) for f in sub])))
                outside = ctx.Or(ctx.Not(ctx.Or(*[f(px, py, 1) for f in add])), ctx.Or(*[f(px, py, -1) for f in sub]))
                for q in range(iz, iz+k):
                    if lin(x, y, q, n2) in got:
                        ctx.check("no voxel outside of the shapes", ctx.Not(outside))
                    else:
                        ctx.check("all the voxels inside the shapes", ctx.Not(inside))
            iz += k


def h_reject(ctx, what):
    """Invalid inputs are rejected."""
    ctx.eager_int()
    if ctx.sym:
        Lib(ctx).install()
    ms = ctx.load("pypeec.lib_mesher.mesher_shape")
    (w, h) = (ctx.real("w", pos=True), ctx.real("h", pos=True))
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    ctx.assume(ctx.And(w > d[0]*ctx.frac(3, 5), w < d[0]*3, h > d[1]*ctx.frac(3, 5), h < d[1]*3))
    param = {"dx": d[0], "dy": d[1], "dz": d[2], "cz": None, "simplify": None, "construct": None, "xy_min": None, "xy_max": None}
    stack = [{"n_layer": 1, "tag_layer": "u"}, {"n_layer": 2, "tag_layer": "v"}]
    shell = [[0, 0], [w, 0], [w, h], [0, h]]
    lay = ["u"]
    if what == "dz":
        param["dz"] = 0.0
    elif what in ("dx", "dy"):
        param[what] = 0.0
    elif what == "large":
        # the step is larger than twice the size
        param["dx"] = w*ctx.frac(41, 20)+ctx.real("e", pos=True)
    elif what == "small":
        param["dy"] = h*ctx.frac(39, 20)
    elif what == "swap":
        e = ctx.real("e", pos=True)
        ctx.assume(e < d[0])
        param["xy_max"] = [-e-d[0], h]
    elif what == "zero":
        param["xy_min"] = [0, h]
    elif what == "tag":
        stack[1]["tag_layer"] = "u"
    elif what == "cross":
        shell = [[0, 0], [2, 2], [2, 0], [0, 2]]
    elif what == "none":
        lay = ["w"]
    geo = {"a": [{"shape_layer": lay, "shape_operation": "add", "shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": shell, "coord_holes": []}}]}
    (err, _) = ctx.raises(ms.get_mesh, param, stack, geo)
    ctx.check("accepted if and only if valid", (err is None) == (what in ("ok", "small")))


def h_stl(ctx, doms, n, user=None):
    """Boxes as STL files: {tag: number of boxes}."""
    ctx.eager_int()
    ref = {}
    bnd = []
    files = {}
    dom = {}
    tmp = None if ctx.sym else tempfile.TemporaryDirectory()
    for (t, k) in doms.items():
        ref[t] = []
        dom[t] = []
        for i in range(k):
            p = [ctx.real("%s%d.%s" % (t, i, a), -4, 4) for a in "xyz"]
            w = [ctx.real("%s%d.w%s" % (t, i, a), pos=True) for a in "xyz"]
            s = ctx.real("%s%d.s" % (t, i), pos=True) if i == 0 else 1
            o = [ctx.real("%s%d.o%s" % (t, i, a), -4, 4) if i == 0 else 0 for a in "xyz"]
            b = [v for q in range(3) for v in (p[q], p[q]+w[q])]
            name = "%s%d.stl" % (t, i)
            if ctx.sym:
                files[name] = b
            else:
                import pyvista
                name = os.path.join(tmp.name, name)
                pyvista.Box([float(v) for v in b]).triangulate().save(name)
            dom[t].append({"scale": s, "offset": list(o), "filename": name})
            c = [b[q]*s+o[q//2] for q in range(6)]
            ref[t].append(c)
            bnd.append(c)
    if ctx.sym:
        Lib(ctx, files).install()
    ms = ctx.load("pypeec.lib_mesher.mesher_stl")
    (lo, hi) = (None, None)
    if user in ("min", "both"):
        lo = [ctx.real("lo"+a, -9, 9) for a in "xyz"]
    if user in ("max", "both"):
        hi = [ctx.real("hi"+a, -9, 9) for a in "xyz"]

    def pick(i, sign):
        if sign < 0 and lo is not None:
            return lo[i]
        if sign > 0 and hi is not None:
            return hi[i]
        r = None
        for b in bnd:
            v = b[2*i] if sign < 0 else b[2*i+1]
            r = v if r is None else ctx.If((v < r) if sign < 0 else (v > r), v, r)
        return r
    mn = [pick(i, -1) for i in range(3)]
    mx = [pick(i, +1) for i in range(3)]
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    for i in range(3):
        ctx.assume(ctx.And(mx[i]-mn[i] > d[i]*ctx.frac(51+100*(n[i]-1), 100), mx[i]-mn[i] < d[i]*ctx.frac(49+100*n[i], 100), mx[i]-mn[i] > ctx.frac(1, 100)))
    try:
        (n2, d2, c2, got, _) = ms.get_mesh({"d": list(d), "xyz_min": lo and list(lo), "xyz_max": hi and list(hi)}, dom)
    finally:
        if tmp is not None:
            tmp.cleanup()
    n2 = ctx.ints(n2)
    (d2, c2) = (ctx.lst(d2), ctx.lst(c2))
    ctx.check("number of voxels", n2 == list(n))
    ctx.eq("size of the structure", [n2[i]*d2[i] for i in range(3)], [mx[i]-mn[i] for i in range(3)], 1e-4)
    ctx.eq("centre of the structure", [c*2 for c in c2]+[10], [mx[i]+mn[i] for i in range(3)]+[10], 1e-4)
    ctx.check("domain names", sorted(got.keys()) == sorted(doms.keys()))
    e = [(mx[i]-mn[i])/100 for i in range(3)]
    for (t, boxes) in ref.items():
        g = ctx.ints(got[t])
        ctx.check("no voxel is duplicated", len(set(g)) == len(g))
        ctx.check("voxels in the grid", all(0 <= v < n[0]*n[1]*n[2] for v in g))
        for z in range(n[2]):
            for y in range(n[1]):
                for x in range(n[0]):
                    low = [(mn[i]*(n[i]-v)+mx[i]*v)/n[i] for (i, v) in enumerate((x, y, z))]
                    upp = [(mn[i]*(n[i]-v-1)+mx[i]*(v+1))/n[i] for (i, v) in enumerate((x, y, z))]
                    if lin(x, y, z, n) in g:
                        apart = [ctx.Or(*[ctx.Or(low[i] > b[2*i+1]+e[i], upp[i] < b[2*i]-e[i]) for i in range(3)]) for b in boxes]
                        ctx.check("no voxel outside of the mesh", ctx.Not(ctx.And(*apart)))
                    else:
                        full = [ctx.And(*[ctx.And(low[i] > b[2*i]+e[i], upp[i] < b[2*i+1]-e[i]) for i in range(3)]) for b in boxes]
                        ctx.check("all the voxels inside the mesh", ctx.Not(ctx.Or(*full)))


def h_stl_reject(ctx, what):
    ctx.eager_int()
    w = [ctx.real("w"+a, pos=True) for a in "xyz"]
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    for i in range(3):
        ctx.assume(ctx.And(w[i] > d[i]*ctx.frac(3, 5), w[i] < d[i]*ctx.frac(12, 5)))
    tmp = None if ctx.sym else tempfile.TemporaryDirectory()
    if ctx.sym:
        name = "a.stl"
        Lib(ctx, {"a.stl": [0, w[0], 0, w[1], 0, w[2]]}).install()
    else:
        import pyvista
        name = os.path.join(tmp.name, "a.stl")
        pyvista.Box([0, float(w[0]), 0, float(w[1]), 0, float(w[2])]).triangulate().save(name)
    ms = ctx.load("pypeec.lib_mesher.mesher_stl")
    param = {"d": list(d), "xyz_min": None, "xyz_max": None}
    if what == "large":
        param["d"][2] = w[2]*ctx.frac(41, 20)
    elif what == "swap":
        # negative number of voxels
        e = ctx.real("e", pos=True)
        ctx.assume(e < d[0])
        param["xyz_max"] = [0-d[0]*ctx.frac(3, 5)-e, w[1], w[2]]
    elif what == "step":
        param["d"][1] = 0.0
    try:
        (err, _) = ctx.raises(ms.get_mesh, param, {"a": [{"scale": 1, "offset": [0, 0, 0], "filename": name}]})
    finally:
        if tmp is not None:
            tmp.cleanup()
    ctx.check("accepted if and only if valid", (err is None) == (what == "ok"))


HARNESSES = []
L1 = [(1, "u")]
L2 = [(2, "u"), (1, "v")]
L3 = [(1, "w"), (2, "u"), (1, "v")]
ELL = [(0, 0), (3, 0), (3, 1), (1, 1), (1, 2), (0, 2)]
TRI = [(0, 0), (2, 0), (0, 3)]
SHP = {
    "rect": dict(doms={"a": [("add", ["u"], ("rect",))]}, layers=L1, nxy=(2, 2), user="both"),
    "own": dict(doms={"a": [("add", ["u"], ("rect",))]}, layers=L2, nxy=(2, 3), cz=True),
    "two": dict(doms={"a": [("add", ["u"], ("rect",)), ("add", ["u"], ("rect",))]}, layers=L1, nxy=(2, 1)),
    "doms": dict(doms={"b": [("add", ["v"], ("rect",))], "a": [("add", ["u", "w"], ("rect",))]}, layers=L3, nxy=(2, 1), user="both", cz=True),
    "sub": dict(doms={"a": [("sub", ["u"], ("rect",)), ("add", ["u", "v"], ("rect",))]}, layers=[(1, "u"), (1, "v")], nxy=(1, 3), user="both"),
    "order": dict(doms={"a": [("add", ["u"], ("rect",)), ("sub", ["u"], ("rect",)), ("add", ["u"], ("rect",))]}, layers=[(1, "u")], nxy=(2, 1), user="both"),
    "hole": dict(doms={"a": [("add", ["v"], ("rect", "hole"))]}, layers=L2, nxy=(3, 3)),
    "cut": dict(doms={"a": [("add", ["u"], ("rect",)), ("sub", ["u"], ("rect",))]}, layers=L1, nxy=(3, 1)),
    "min": dict(doms={"a": [("add", ["u"], ("rect",))]}, layers=L1, nxy=(3, 1), user="min"),
    "max": dict(doms={"a": [("add", ["u"], ("rect",))]}, layers=L1, nxy=(1, 3), user="max"),
    "miss": dict(doms={"a": [("add", ["u"], ("rect",)), ("add", ["q"], ("rect",))], "b": [("add", ["q"], ("rect",))]}, layers=L1, nxy=(2, 2)),
    "ell": dict(doms={"a": [("add", ["u"], ("poly", ELL))]}, layers=L1, nxy=(3, 2)),
    "ell2": dict(doms={"a": [("add", ["u"], ("poly", ELL))]}, layers=L1, nxy=(2, 1), user="both"),
    "tri": dict(doms={"a": [("add", ["v"], ("poly", TRI))]}, layers=L2, nxy=(2, 1), user="both"),
    "pad": dict(doms={"a": [("add", ["u"], ("pad", [(1, 1), (4, 2)], 1))]}, layers=L1, nxy=(3, 2)),
    "pad2": dict(doms={"a": [("add", ["u"], ("pad", [(1, 1)], 1))]}, layers=L1, nxy=(2, 1), user="both"),
    "trace": dict(doms={"a": [("add", ["u"], ("trace", [(0, 0), (4, 0), (4, 3)], 0.5))]}, layers=L1, nxy=(3, 3)),
    "trace2": dict(doms={"a": [("add", ["u"], ("trace", [(0, 0), (2, 1)], 1))]}, layers=L1, nxy=(1, 2), user="both"),
    "buffer": dict(doms={"a": [("add", ["u"], ("rect", "buffer"))]}, layers=L1, nxy=(1, 2)),
    "simplify": dict(doms={"a": [("add", ["u"], ("poly", ELL))]}, layers=L1, nxy=(3, 2), opt={"simplify": 1e-6, "construct": 1e-6}),
}
for (k, v) in SHP.items():
    HARNESSES.append(H("shape/"+k, h_shape, **v))
for w in ("ok", "dx", "dy", "dz", "large", "small", "swap", "zero", "tag", "cross", "none"):
    HARNESSES.append(H("reject/"+w, h_reject, what=w))
STL = {
    "one": dict(doms={"a": 1}, n=(2, 1, 1)),
    "user": dict(doms={"a": 1}, n=(2, 1, 1), user="both"),
    "user2": dict(doms={"a": 1}, n=(1, 2, 1), user="both"),
    "user3": dict(doms={"a": 1}, n=(1, 1, 2), user="both"),
    "two": dict(doms={"a": 2}, n=(2, 1, 1)),
    "doms": dict(doms={"b": 1, "a": 1}, n=(1, 2, 1)),
    "min": dict(doms={"a": 1}, n=(1, 1, 2), user="min"),
    "max": dict(doms={"a": 1}, n=(2, 1, 1), user="max"),
    "overlap": dict(doms={"a": 2}, n=(2, 1, 1), user="both"),
    "cube": dict(doms={"a": 1}, n=(2, 2, 2)),
    "cube2": dict(doms={"a": 2}, n=(2, 2, 2)),
    "cubes": dict(doms={"b": 1, "a": 1}, n=(2, 2, 2)),
}
for (k, v) in STL.items():
    HARNESSES.append(H("stl/"+k, h_stl, **v))
for w in ("ok", "large", "swap", "step"):
    HARNESSES.append(H("stlreject/"+w, h_stl_reject, what=w))
DEEP = {
    "rect": dict(doms={"a": [("add", ["u"], ("rect",))]}, layers=L2, nxy=(3, 3), user="both"),
    "two": dict(doms={"a": [("add", ["u"], ("rect",)), ("add", ["u", "v"], ("rect",))]}, layers=L2, nxy=(2, 2), user="both"),
    "tri": dict(doms={"a": [("add", ["v"], ("poly", TRI))]}, layers=L2, nxy=(2, 2), user="both"),
}
for (k, v) in DEEP.items():
    HARNESSES.append(H("shape/deep/"+k, h_shape, tier="thorough", **v))
HARNESSES.append(H("stl/deep", h_stl, tier="thorough", doms={"a": 1}, n=(2, 2, 1), user="both"))
HARNESSES.append(H("stl/deep2", h_stl, tier="thorough", doms={"a": 2}, n=(3, 1, 1), user="both"))
