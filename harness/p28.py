"""The mesher entry point: the final voxel structure is the described geometry."""

import itertools
from .common import H, lin, unlin
from .p11 import images
from .p12 import prim
from .p13 import components, rule_ok
from .p23 import json_stub
from .shapes import Lib

BOUNDS = ("complete runs of the index mesher with every (overlapping) assignment of the voxels of 2x2x1, 3x1x1, 1x1x3 to 2 or 3 domains, of the image mesher with up to 2x2 "
          "pixels (all channels symbolic) and 2 layers, of the shape mesher with 2 overlapping rectangles and 2x2 pixels; cropping, resampling factors 1-3, up to 3 conflict rules, "
          "random resolution of up to 4 entries, up to 3 connection rules, up to 2 points; dimensions, centre and points symbolic")
ASSUMPTIONS = ["real arithmetic in place of floating point", "Pillow, Shapely, Rasterio as for P11, P12", "numpy.random.permutation returns any permutation",
               "the format check of jsonschema is accepted in the symbolic runs", "at least one voxel is not empty", "for a required adjacency, at least one group is not empty"]


def keep(a, b):
    return {"domain_keep": list(a), "domain_resolve": list(b)}


class Geo:
    """Geometry of a mesher run: grid, options, and the oracle of the final structure."""

    def __init__(self, ctx, crop=False, fac=None, rules=None, random=False, conn=(), cloud=None):
        self.ctx = ctx
        self.crop = crop
        self.fac = [1, 1, 1] if fac is None else list(fac)
        self.rules = rules
        self.random = random
        self.conn = list(conn)
        self.cloud = cloud
        self.pts = [[ctx.real("p%d%s" % (i, a)) for a in "xyz"] for i in range(cloud[0] if cloud else 0)]
        self.use_resample = fac is not None

    def data(self, mesh, vox):
        con, adj = {}, {}
        for (i, (kind, groups, req)) in enumerate(self.conn):
            (con if kind == "connected" else adj)["r%d" % i] = {"domain_group": [list(g) for g in groups], "connected": req}
        return {
            "mesh_type": mesh,
            "data_voxelize": vox,
            "data_point": {"check_cloud": bool(self.cloud and self.cloud[1]), "full_cloud": bool(self.cloud and self.cloud[2]), "pts_cloud": [list(p) for p in self.pts]},
            "data_conflict": {"resolve_rules": self.rules is not None, "resolve_random": self.random, "conflict_rules": [keep(a, b) for (a, b) in self.rules or []]},
            "data_resampling": {"use_reduce": self.crop, "use_resample": self.use_resample, "resampling_factor": list(self.fac)},
            "data_integrity": {"domain_connected": con, "domain_adjacent": adj},
        }

    def grid(self, n, mem):
        """Corner and number of voxels of the final grid."""
        pos = [unlin(v, n) for lst in mem.values() for v in lst]
        lo = [min(p[k] for p in pos) if self.crop else 0 for k in range(3)]
        hi = [max(p[k] for p in pos)+1 if self.crop else n[k] for k in range(3)]
        return lo, hi, [(hi[k]-lo[k])*self.fac[k] for k in range(3)]

    def fine(self, n, lo, n_ref, lst):
        out = []
        for v in lst:
            p = unlin(v, n)
            for (i, j, k) in itertools.product(*[range(f) for f in self.fac]):
                out.append(lin((p[0]-lo[0])*self.fac[0]+i, (p[1]-lo[1])*self.fac[1]+j, (p[2]-lo[2])*self.fac[2]+k, n_ref))
        return sorted(out)

    def resolve(self, mem):
        mem = {t: set(v) for (t, v) in mem.items()}
        for (a, b) in self.rules or []:
            for s in a:
                for t in b:
                    mem[t] = mem[t]-mem[s]
        return mem

    def check(self, n, d, c, mem, err, res):
        """mem: the described domains on the initial grid."""
        ctx = self.ctx
        if not any(mem.values()):
            ctx.assume(False)
        names = set(mem)
        used = set(t for (a, b) in self.rules or [] for t in list(a)+list(b)) | set(t for (_, g, _) in self.conn for x in g for t in x)
        if not used <= names:
            ctx.check("rules with unknown domains are rejected", err is not None)
            return
        (lo, hi, n_ref) = self.grid(n, mem)
        half = ctx.frac(1, 2)
        # points
        vox = [unlin(v, n) for lst in mem.values() for v in lst]
        ctr = [[c[k]+(p[k]+half-half*n[k])*d[k] for k in range(3)] for p in vox]
        eps = 0 if ctx.sym else 1e-9
        out = [ctx.And(True, *[ctx.Or(*[ctx.abs(p[k]-q[k]) > half*d[k]-eps for k in range(3)]) for q in ctr]) for p in self.pts]
        far = [ctx.And(True, *[ctx.Or(*[ctx.abs(p[k]-q[k]) > d[k]+eps for k in range(3)]) for q in ctr]) for p in self.pts]
        strict = bool(self.cloud and self.cloud[1] and self.cloud[2])
        # conflicts
        fin = self.resolve(mem)
        clash = any(fin[s] & fin[t] for (s, t) in itertools.combinations(sorted(fin), 2))
        if self.random:
            clash = False
        got = None
        if err is None:
            geom = res["data_geom"]
            n2 = ctx.ints(list(geom["n"]))
            ctx.check("number of voxels", n2 == n_ref)
            got = {t: ctx.ints(v) for (t, v) in geom["domain_def"].items()}
            ctx.check("domain names", set(got) == names)
        if self.random and got is not None:
            # any choice is fine
            new = {}
            for t in names:
                new[t] = set(v for v in range(n[0]*n[1]*n[2]) if v in mem[t] and set(self.fine(n, lo, n_ref, [v])) & set(got[t]))
            inv = {t: self.fine(n, lo, n_ref, mem[t]) for t in names}
            ctx.check("only domains which contained the voxel", all(set(got[t]) <= set(inv[t]) for t in names))
            ctx.check("no voxel is lost", set(x for v in got.values() for x in v) == set(x for v in inv.values() for x in v))
            ctx.check("no voxel in two domains", len(set(x for v in got.values() for x in v)) == sum(len(v) for v in got.values()))
            fine = {t: sorted(got[t]) for t in names}
        else:
            fine = {t: self.fine(n, lo, n_ref, fin[t]) for t in names}
        comps = components(n_ref, sorted(set(x for v in fine.values() for x in v)))
        oks = [rule_ok(n_ref, fine, comps, *r) for r in self.conn]
        if None in oks:
            ctx.assume(False)
        if err is not None:
            if clash or not all(oks):
                return
            ctx.check("valid geometries are accepted", strict and not self.random)
            ctx.check("error without a point at a voxel", ctx.Not(ctx.And(True, *far)))
            return
        ctx.check("conflicts are rejected", not clash)
        ctx.check("violated connection rules are rejected", all(oks))
        ctx.check("complete data", set(res) == {"date", "duration", "seconds", "status", "data_geom"} and res["status"] is True)
        (d2, c2, s2) = (ctx.lst(geom["d"]), ctx.lst(geom["c"]), ctx.lst(geom["s"]))
        ctx.eq("voxel size", [d2[k]*self.fac[k] for k in range(3)], list(d))
        ctx.eq("total size", s2, [d[k]*(hi[k]-lo[k]) for k in range(3)])
        ctx.eq("centre", c2, [c[k]-half*n[k]*d[k]+half*(lo[k]+hi[k])*d[k] for k in range(3)])
        for t in sorted(names):
            ctx.check("voxels of the domain", sorted(got[t]) == fine[t])
        ctx.check("connected components", sorted(sorted(ctx.ints(g)) for g in geom["graph_def"]) == sorted(comps))
        # points
        pts = geom["pts_cloud"]
        rows = len(pts)
        pts = ctx.lst(pts)
        m = len(self.pts)
        if not (self.cloud and self.cloud[1]) or strict:
            ctx.check("number of points", rows == m)
            ctx.eq("points unchanged", pts, [x for p in self.pts for x in p])
            if strict:
                ctx.check("points are outside of the voxels", ctx.And(True, *out))
        else:
            cases = []
            for sel in itertools.combinations(range(m), rows):
                same = [ctx.eq_cond(pts[3*i+k], self.pts[j][k]) for (i, j) in enumerate(sel) for k in range(3)]
                cases.append(ctx.And(True, *same, *[out[j] for j in sel], *[ctx.Not(far[j]) for j in range(m) if j not in sel]))
            ctx.check("kept points are outside of the voxels, in order, and complete", ctx.Or(*cases))
        # summary
        vs = geom["voxel_status"]
        nt = n_ref[0]*n_ref[1]*n_ref[2]
        nu = sum(len(v) for v in fine.values())
        ctx.check("counters", (int(vs["n_total"]), int(vs["n_used"]), int(vs["n_domain"]), int(vs["n_graph"]), int(vs["n_cloud"])) == (nt, nu, len(names), len(comps), rows))
        vol = d2[0]*d2[1]*d2[2]
        ctx.eq("volumes and areas", [vs["V_total"], vs["V_used"], vs["A_xy"], vs["A_yz"], vs["A_xz"]], [vol*nt, vol*nu, s2[0]*s2[1], s2[1]*s2[2], s2[0]*s2[2]])
        ctx.eq("utilization", vs["ratio"]*nt, nu)


def space(ctx):
    return [ctx.real("d"+a, lo=None if ctx.sym else 0.01, pos=True) for a in "xyz"], [ctx.real("c"+a) for a in "xyz"]


def h_voxel(ctx, n, dom, **opt):
    """dom: names (any overlapping assignment) or concrete domains."""
    json_stub(ctx)
    g = Geo(ctx, **opt)
    mod = ctx.load("pypeec.run.mesher")
    (d, c) = space(ctx)
    nv = n[0]*n[1]*n[2]
    if isinstance(dom, str):
        own = [ctx.conc(ctx.int("own%d" % v, 0, 2**len(dom)-1)) for v in range(nv)]
        dom = {t: [v for v in range(nv) if own[v] & (1 << i)] for (i, t) in enumerate(dom)}
        dom = {t: v[1::2]+v[0::2] for (t, v) in dom.items()}
    if not any(dom.values()):
        ctx.assume(False)
    arg = g.data("voxel", {"param": {"n": list(n), "d": list(d), "c": list(c)}, "domain_index": {t: list(v) for (t, v) in dom.items()}})
    (err, res) = ctx.raises(mod.run, arg)
    ctx.check("input data are not modified", arg["data_voxelize"]["domain_index"] == dom and list(arg["data_voxelize"]["param"]["n"]) == list(n) and len(arg["data_point"]["pts_cloud"]) == len(g.pts))
    g.check(n, d, c, dom, err, res)


def h_png(ctx, size, spec, colors, layers, **opt):
    json_stub(ctx)
    img = images(ctx, spec)
    g = Geo(ctx, **opt)
    mod = ctx.load("pypeec.run.mesher")
    (d, c) = space(ctx)
    (nx, ny) = size
    vox = {"param": {"d": list(d), "c": list(c), "size": list(size)}, "domain_color": {t: [list(x) for x in v] for (t, v) in colors.items()},
           "layer_stack": [{"n_layer": k, "filename_list": list(f)} for (k, f) in layers]}
    # description: the colours of the pixels
    n = (nx, ny, sum(k for (k, _) in layers))
    mem = {t: [] for t in colors}
    for t in colors:
        iz = 0
        for (k, lst) in layers:
            for (x, y) in itertools.product(range(nx), range(ny)):
                if bool(ctx.Or(*[ctx.And(*[img[f][ny-1-y][x][b] == w[b] for b in range(4)]) for f in lst for w in colors[t]])):
                    mem[t] += [lin(x, y, z, n) for z in range(iz, iz+k)]
            iz += k
    if not any(mem.values()):
        ctx.assume(False)
    (err, res) = ctx.raises(mod.run, g.data("png", vox))
    g.check(n, d, c, mem, err, res)


def h_shape(ctx, nxy, layers, dom, **opt):
    """Rectangles as domains."""
    json_stub(ctx)
    ctx.eager_int()
    if ctx.sym:
        Lib(ctx).install()
    g = Geo(ctx, **opt)
    mod = ctx.load("pypeec.run.mesher")
    lo = [ctx.real("lo"+a, -6, 6) for a in "xy"]
    hi = [ctx.real("hi"+a, -6, 6) for a in "xy"]
    d = [ctx.real("d"+a, pos=True) for a in "xyz"]
    for i in range(2):
        ctx.assume(ctx.And(hi[i]-lo[i] > d[i]*ctx.frac(51+100*(nxy[i]-1), 100), hi[i]-lo[i] < d[i]*ctx.frac(49+100*nxy[i], 100)))
    (geo, ref) = ({}, {})
    for (t, lay) in dom.items():
        (shp, f, _) = prim(ctx, t, ("rect",))
        geo[t] = [dict(shp, shape_layer=list(lay), shape_operation="add")]
        ref[t] = (lay, f)
    n = (nxy[0], nxy[1], sum(k for (k, _) in layers))
    mem = {t: [] for t in dom}
    for (t, (lay, f)) in ref.items():
        for (x, y) in itertools.product(range(nxy[0]), range(nxy[1])):
            (px, py) = [(lo[i]*(2*nxy[i]-2*v-1)+hi[i]*(2*v+1))/(2*nxy[i]) for (i, v) in enumerate((x, y))]
            inside = bool(f(px, py, -1))
            # away from the boundary
            ctx.assume(ctx.Or(inside, ctx.Not(f(px, py, 1))))
            iz = 0
            for (k, tag) in layers:
                if inside and tag in lay:
                    mem[t] += [lin(x, y, z, n) for z in range(iz, iz+k)]
                iz += k
    if not any(mem.values()):
        ctx.assume(False)
    param = {"dx": d[0], "dy": d[1], "dz": d[2], "cz": None, "simplify": None, "construct": None, "xy_min": list(lo), "xy_max": list(hi)}
    (err, res) = ctx.raises(mod.run, g.data("shape", {"param": param, "layer_stack": [{"n_layer": k, "tag_layer": t} for (k, t) in layers], "geometry_shape": geo}))
    g.check(n, [(hi[i]-lo[i])/nxy[i] for i in range(2)]+[d[2]], [(hi[i]+lo[i])/2 for i in range(2)]+[0], mem, err, res)


AB = [(["a"], ["b"])]
BA = [(["b"], ["a"])]
CYC = [(["a"], ["b"]), (["b"], ["c"]), (["c"], ["a"])]
CON = ("connected", [["a"], ["b"]], True)
NOC = ("connected", [["a"], ["b"]], False)
ADJ = ("adjacent", [["a"], ["b"]], True)
NOA = ("adjacent", [["b"], ["a"]], False)
HARNESSES = []
GRID = {"221": (2, 2, 1), "311": (3, 1, 1), "113": (1, 1, 3)}
OPT = {
    "plain": {},
    "crop": dict(crop=True, rules=AB),
    "fine": dict(fac=(2, 1, 2), rules=BA),
    "rules": dict(crop=True, fac=(1, 2, 1), rules=AB, conn=[ADJ]),
    "conn": dict(rules=AB, conn=[CON, NOA]),
    "split": dict(crop=True, rules=BA, conn=[NOC]),
    "resolved": dict(rules=AB, conn=[NOA]),
    "fineconn": dict(fac=(1, 1, 2), rules=BA, conn=[ADJ, NOC]),
}
for (gn, n) in GRID.items():
    for (on, o) in OPT.items():
        HARNESSES.append(H("voxel/%s/%s" % (gn, on), h_voxel, n=n, dom="ab", **o))
HARNESSES.append(H("voxel/three", h_voxel, n=(1, 2, 1), dom="abc", rules=CYC, fac=(2, 1, 3), conn=[("adjacent", [["a", "c"], ["b"]], True)]))
HARNESSES.append(H("voxel/three2", h_voxel, n=(2, 1, 1), dom="cab", rules=[(["c"], ["a", "b"]), (["a"], ["b"])], crop=True, conn=[("connected", [["c"], ["b"]], False)]))
HARNESSES.append(H("voxel/unknown", h_voxel, n=(2, 1, 1), dom="ab", rules=[(["a"], ["x"])]))
HARNESSES.append(H("voxel/unknown2", h_voxel, n=(2, 1, 1), dom="ab", rules=AB, conn=[("adjacent", [["a"], ["x"]], False)]))
HARNESSES.append(H("voxel/random", h_voxel, n=(3, 1, 2), dom={"a": [1, 4], "b": [4, 5]}, random=True, crop=True))
HARNESSES.append(H("voxel/random2", h_voxel, n=(2, 1, 1), dom={"a": [1], "b": [0, 1]}, random=True, fac=(1, 1, 1), rules=[], conn=[NOA]))
HARNESSES.append(H("voxel/random3", h_voxel, n=(1, 2, 1), dom={"a": [1], "b": [1]}, random=True, crop=True, fac=(1, 1, 2), conn=[ADJ]))
for (i, cl) in enumerate(((1, True, False), (1, True, True), (1, False, True))):
    HARNESSES.append(H("cloud/%d" % i, h_voxel, n=(3, 2, 1), dom={"a": [1, 4], "b": [4]}, rules=BA, crop=True, fac=(2, 2, 1), cloud=cl))
    HARNESSES.append(H("cloud/more/%d" % i, h_voxel, n=(2, 2, 2), dom={"a": [6]}, crop=True, fac=(3, 1, 1), cloud=(2,)+cl[1:]))
HARNESSES.append(H("cloud/violated", h_voxel, n=(2, 1, 1), dom="ab", rules=AB, conn=[NOA], cloud=(1, True, False)))
RED = (255, 0, 0, 255)
GRN = (0, 255, 0, 255)
for (on, o) in (("plain", {}), ("crop", dict(crop=True, rules=AB)), ("all", dict(crop=True, fac=(2, 1, 1), rules=BA, conn=[NOC]))):
    HARNESSES.append(H("png/1/"+on, h_png, size=(2, 1), spec={"i": (2, 1)}, colors={"a": [RED, GRN], "b": [GRN]}, layers=[(1, ["i"])], **o))
    HARNESSES.append(H("png/2/"+on, h_png, size=(1, 2), spec={"i": (1, 2), "j": (1, 2)}, colors={"b": [GRN], "a": [RED]}, layers=[(2, ["i"]), (1, ["j"])], **o))
    HARNESSES.append(H("png/3/"+on, h_png, size=(2, 1), spec={"i": (2, 1), "j": (2, 1)}, colors={"a": [RED], "b": [GRN]}, layers=[(1, ["i", "j"])], **o))
    HARNESSES.append(H("shape/1/"+on, h_shape, nxy=(2, 1), layers=[(1, "u"), (1, "v")], dom={"a": ["u"], "b": ["u", "v"]}, **o))
    HARNESSES.append(H("shape/2/"+on, h_shape, nxy=(1, 2), layers=[(2, "u")], dom={"b": ["u"], "a": ["u"]}, **o))
for (on, o) in OPT.items():
    HARNESSES.append(H("deep/321/"+on, h_voxel, tier="thorough", n=(3, 2, 1), dom="ab", **o))
    HARNESSES.append(H("deep/112/"+on, h_voxel, tier="thorough", n=(1, 1, 3), dom="abc", **o))
HARNESSES.append(H("deep/png", h_png, tier="thorough", size=(2, 2), spec={"i": (2, 2)}, colors={"a": [RED, GRN], "b": [GRN]}, layers=[(2, ["i"])], crop=True, fac=(2, 1, 1), rules=BA, conn=[NOC]))
