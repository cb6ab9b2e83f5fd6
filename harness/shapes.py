"""
Contracts of Shapely, Rasterio and PyVista for the symbolic runs (the native runs use the
libraries themselves): a shape is the predicate "contains the point", an STL file is a box.
"""

from fractions import Fraction


# ---------------------------------------------------------------- planar geometry (shared with the oracle)

def in_box(ctx, b, x, y):
    return ctx.And(b[0] < x, x < b[2], b[1] < y, y < b[3])


def in_poly(ctx, pts, x, y):
    """Even-odd rule (concrete vertices)."""
    r = False
    for (i, (xa, ya)) in enumerate(pts):
        (xb, yb) = pts[i-1]
        if ya == yb:
            continue
        (xa, ya, xb, yb) = [Fraction(v) for v in (xa, ya, xb, yb)]
        side = x < ctx.num(float(xa) if not ctx.sym else xa)+(y-_c(ctx, ya))*_c(ctx, (xb-xa)/(yb-ya))
        cut = ctx.Not(ctx.Iff(_c(ctx, ya) > y, _c(ctx, yb) > y))
        r = ctx.Not(ctx.Iff(r, ctx.And(cut, side)))
    return r


def _c(ctx, v):
    return ctx.num(v) if ctx.sym else float(v)


def dist2_point(p, x, y):
    return (x-p[0])*(x-p[0])+(y-p[1])*(y-p[1])


def dist2_segment(ctx, p, q, x, y):
    (ex, ey) = (q[0]-p[0], q[1]-p[1])
    l2 = ex*ex+ey*ey
    t = (x-p[0])*ex+(y-p[1])*ey
    s = (x-p[0])*ey-(y-p[1])*ex
    return ctx.If(t < 0, dist2_point(p, x, y), ctx.If(t > l2, dist2_point(q, x, y), ctx.frac(s*s, l2)))


def within(ctx, kind, data, r, x, y, scale=1):
    """Is the point within the distance r*scale of the points (pad) or of the line (trace)?"""
    r2 = r*r*scale
    if kind == "pad":
        return ctx.Or(*[dist2_point(p, x, y) < r2 for p in data])
    if len(data) == 1:
        return dist2_point(data[0], x, y) < r2
    return ctx.Or(*[dist2_segment(ctx, p, q, x, y) < r2 for (p, q) in zip(data, data[1:])])


# ---------------------------------------------------------------- shapely

def _same(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, float, Fraction)) and a == b) or repr_term(a) == repr_term(b)


def repr_term(v):
    return str(getattr(v, "t", v))


class Lib:
    def __init__(self, ctx, files=None):
        self.ctx = ctx
        lib = self

        class Shape:
            """Predicate with bounds."""
            is_valid = True
            is_closed = True
            is_simple = True

            def __init__(self, inside, bounds, empty=False, raw=None):
                self.inside = inside
                self.bounds = bounds
                self.is_empty = empty
                self.raw = raw
                self.geoms = []
                self.interiors = []

            def buffer(self, r, *a, **k):
                if a or set(k) - {"cap_style", "join_style", "quad_segs", "resolution"} or any(v not in ("round", 1) for (q, v) in k.items() if q.endswith("style")):
                    raise lib.unsupported("shape buffer")
                if self.raw is None:
                    raise lib.unsupported("buffer of a general shape")
                (kind, data) = self.raw
                lo = [lib.least([p[i] for p in data]) for i in range(2)]
                hi = [lib.most([p[i] for p in data]) for i in range(2)]
                bnd = (lo[0]-r, lo[1]-r, hi[0]+r, hi[1]+r)
                if kind == "box":
                    b = self.bounds

                    def inside(x, y):
                        return ctx.Or(in_box(ctx, (b[0]-r, b[1], b[2]+r, b[3]), x, y), in_box(ctx, (b[0], b[1]-r, b[2], b[3]+r), x, y),
                                      within(ctx, "pad", data, r, x, y))
                    return lib.Multi(inside, bnd)
                return lib.Multi(lambda x, y: within(ctx, kind, data, r, x, y), bnd)

            def union(self, o, grid_size=None): return lib.unary_union([self, o])
            def difference(self, o, grid_size=None): return lib.difference(self, o)

            def simplify(self, tol, preserve_topology=True): return lib.simplify(self, tol)

            def __or__(self, o): return lib.unary_union([self, o])
            def __sub__(self, o): return lib.difference(self, o)

        class Polygon(Shape):
            def __init__(self, shell, holes=None):
                shell = [lib.pt(p) for p in shell]
                holes = [[lib.pt(p) for p in h] for h in (holes if holes is not None else [])]
                (f, b, kind) = lib.ring(shell)
                hs = [lib.ring(h)[0] for h in holes]
                Shape.__init__(self, lambda x, y: ctx.And(f(x, y), *[ctx.Not(h(x, y)) for h in hs]), b)
                self.is_valid = kind != "bad"
                if not holes:
                    self.raw = (kind, shell)

        class Multi(Shape):
            pass

        class MultiPoint(Shape):
            def __init__(self, pts):
                Shape.__init__(self, None, None, raw=("pad", [lib.pt(p) for p in pts]))

        class LineString(Shape):
            def __init__(self, pts):
                Shape.__init__(self, None, None, raw=("trace", [lib.pt(p) for p in pts]))
        self.Shape = Shape
        self.Polygon = Polygon
        self.Multi = Multi
        self.MultiPoint = MultiPoint
        self.LineString = LineString
        self.files = files or {}

    def unsupported(self, msg):
        from symx.engine import Unsupported
        return Unsupported(msg)

    def pt(self, p):
        (x, y) = self.ctx.lst(p)
        return (self.ctx.num(x), self.ctx.num(y))

    def least(self, lst):
        r = lst[0]
        for v in lst[1:]:
            r = self.ctx.If(v < r, v, r)
        return r

    def most(self, lst):
        r = lst[0]
        for v in lst[1:]:
            r = self.ctx.If(v > r, v, r)
        return r

    def ring(self, pts):
        ctx = self.ctx
        if all(isinstance(v, (int, Fraction)) for p in pts for v in p):
            b = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
            return (lambda x, y: in_poly(ctx, pts, x, y)), b, ("bad" if self.crossing(pts) else "poly")
        if len(pts) == 4:
            for (a, c, e, g) in (pts, pts[1:]+pts[:1]):
                # a-c horizontal, c-e vertical
                if _same(a[1], c[1]) and _same(c[0], e[0]) and _same(e[1], g[1]) and _same(g[0], a[0]):
                    b = (self.least([a[0], c[0]]), self.least([c[1], e[1]]), self.most([a[0], c[0]]), self.most([c[1], e[1]]))
                    return (lambda x, y: in_box(ctx, b, x, y)), b, "box"
        raise self.unsupported("general polygon")

    def crossing(self, pts):
        """Do two edges of a concrete polygon cross?"""
        def orient(p, q, r):
            return (q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0])
        n = len(pts)
        ed = [(pts[i], pts[(i+1) % n]) for i in range(n)]
        for i in range(n):
            for j in range(i+2, n):
                if (j+1) % n == i:
                    continue
                ((p, q), (r, s)) = (ed[i], ed[j])
                if orient(p, q, r)*orient(p, q, s) < 0 and orient(r, s, p)*orient(r, s, q) < 0:
                    return True
        return False

    def unary_union(self, lst, grid_size=None, *a, **k):
        lst = [s for s in lst if not s.is_empty]
        if not lst:
            return self.Multi(lambda x, y: False, (self.nan(),)*4, empty=True)
        if any(s.inside is None for s in lst):
            raise self.unsupported("union of lines or points")
        b = (self.least([s.bounds[0] for s in lst]), self.least([s.bounds[1] for s in lst]),
             self.most([s.bounds[2] for s in lst]), self.most([s.bounds[3] for s in lst]))
        return self.Multi(lambda x, y: self.ctx.Or(*[s.inside(x, y) for s in lst]), b)

    def nan(self):
        from symx import scalar
        return scalar.NAN

    def difference(self, a, b, grid_size=None, **k):
        if b.is_empty or a.is_empty:
            return a
        # the harnesses subtract shapes which leave the bounds unchanged (or give the bounds)
        return self.Multi(lambda x, y: self.ctx.And(a.inside(x, y), self.ctx.Not(b.inside(x, y))), a.bounds)

    def simplify(self, a, tol, preserve_topology=True):
        return a

    # ---------------------------------------------------------------- rasterio

    def rasterize(self, shapes, out_shape=None, fill=0, out=None, transform=None, all_touched=False, default_value=1, dtype=None, **k):
        ctx = self.ctx
        if out is not None or k or all_touched or fill not in (0, False) or default_value not in (1, True):
            raise self.unsupported("rasterize options")
        (h, w) = [int(ctx.conc(v)) for v in out_shape]
        if h <= 0 or w <= 0:
            raise ValueError("width and height must be > 0")
        lst = [(s if isinstance(s, (tuple, list)) else (s, 1)) for s in shapes]
        if not lst:
            raise ValueError("No valid geometry objects found for rasterize")
        if any(v not in (1, True) for (_, v) in lst):
            raise self.unsupported("rasterize values")
        rows = []
        for r in range(h):
            row = []
            for c in range(w):
                (x, y) = transform * (Fraction(2*c+1, 2), Fraction(2*r+1, 2))
                row.append(ctx.If(ctx.Or(*[s.inside(x, y) for (s, _) in lst]), 1, 0))
            rows.append(row)
        return ctx.arr(rows, "i")

    def affine(self, *v):
        lib = self

        class Affine:
            def __init__(self, a, b, c, d, e, f):
                (self.a, self.b, self.c, self.d, self.e, self.f) = (a, b, c, d, e, f)

            def __mul__(self, p):
                if isinstance(p, Affine):
                    return Affine(self.a*p.a+self.b*p.d, self.a*p.b+self.b*p.e, self.a*p.c+self.b*p.f+self.c,
                                  self.d*p.a+self.e*p.d, self.d*p.b+self.e*p.e, self.d*p.c+self.e*p.f+self.f)
                (x, y) = p
                return (self.a*x+self.b*y+self.c, self.d*x+self.e*y+self.f)

            @staticmethod
            def translation(x, y): return Affine(1, 0, x, 0, 1, y)

            @staticmethod
            def scale(x, y=None): return Affine(x, 0, 0, 0, x if y is None else y, 0)
        lib.Affine = Affine
        return Affine

    def from_bounds(self, west, south, east, north, width, height):
        return self.Affine((east-west)/width, 0, west, 0, (south-north)/height, north)

    def from_origin(self, west, north, xsize, ysize):
        return self.Affine(xsize, 0, west, 0, 0-ysize, north)

    # ---------------------------------------------------------------- pyvista

    def install(self):
        ctx = self.ctx
        lib = self
        Affine = self.affine()

        class Mesh:
            """Reference mesh without content, or box of an STL file."""
            def __init__(self, bounds=None, n_cells=1):
                self.bounds = bounds
                self.n_cells = n_cells
                self.faces = ctx.arr([], "i")
                self.points = ctx.np.zeros((0, 3))

            def combine(self, *a, **k): return self
            def extract_surface(self, *a, **k): return self

            def scale(self, s, inplace=False, **k):
                s = ctx.lst(s) if not _is_num(ctx, s) else [s]*3
                new = tuple(v*s[i//2] for (i, v) in enumerate(self.bounds))
                return self._set(new, inplace)

            def translate(self, o, inplace=False, **k):
                o = ctx.lst(o)
                return self._set(tuple(v+o[i//2] for (i, v) in enumerate(self.bounds)), inplace)

            def _set(self, b, inplace):
                if inplace:
                    self.bounds = b
                    return self
                return Mesh(b, self.n_cells)

        class Grid:
            def __init__(self):
                self.data = {}
                self.unstructured = False

            def __setitem__(self, k, v):
                self.data[k] = v

            def __getitem__(self, k):
                return self.data[k]

            def num(self):
                return [int(v) for v in ctx.ints(self.dimensions)]

            def cast_to_unstructured_grid(self):
                return self

            def select_enclosed_points(self, mesh, tolerance=0.001, inside_out=False, check_surface=True, **k):
                if inside_out or k:
                    raise lib.unsupported("options of select_enclosed_points")
                (mx, my, mz) = self.num()
                (o, s) = (ctx.lst(self.origin), ctx.lst(self.spacing))
                b = mesh.bounds
                out = []
                for z in range(mz):
                    for y in range(my):
                        for x in range(mx):
                            p = [o[i]+s[i]*v for (i, v) in enumerate((x, y, z))]
                            out.append(ctx.And(*[ctx.And(b[2*i] < p[i], p[i] < b[2*i+1]) for i in range(3)]))
                return {"SelectedPoints": Mask(out)}

            def extract_points(self, ind, adjacent_cells=True, include_cells=True):
                if not adjacent_cells or not include_cells:
                    raise lib.unsupported("options of extract_points")
                (mx, my, mz) = self.num()
                m = ctx.lst(ind)
                if len(m) != mx*my*mz:
                    raise ValueError("mask length")
                out = []
                data = ctx.lst(self.data["idx"])
                k = 0
                for z in range(mz-1):
                    for y in range(my-1):
                        for x in range(mx-1):
                            c = ctx.Or(*[m[(x+a)+(y+b)*mx+(z+e)*mx*my] for a in (0, 1) for b in (0, 1) for e in (0, 1)])
                            if bool(c):
                                out.append(data[k])
                            k += 1
                return {"idx": ctx.arr(out, "i")}

        class Mask:
            """Selection of the points (0 or 1)."""
            def __init__(self, v):
                self.v = v

            def view(self, t): return ctx.arr(self.v, "b")
            astype = view

            def __symarray__(self): return ctx.arr([ctx.If(x, 1, 0) for x in self.v], "i")

            def __eq__(self, o): return ctx.arr(self.v, "b") if o == 1 else NotImplemented
            __gt__ = lambda self, o: ctx.arr(self.v, "b")
            __ne__ = __gt__

        def read(filename, force_ext=None, **k):
            if filename not in lib.files:
                raise FileNotFoundError(filename)
            f = lib.files[filename]
            if f == "invalid":
                raise ValueError(filename)
            if f == "empty":
                return Mesh(None, 0)
            return Mesh(tuple(f))

        sh = {"Polygon": self.Polygon, "MultiPolygon": self.Multi, "MultiPoint": self.MultiPoint, "LineString": self.LineString}
        ops = {"unary_union": self.unary_union, "union_all": self.unary_union, "difference": self.difference, "simplify": self.simplify}
        ctx.stub({
            "shapely": dict(sh, **ops),
            "shapely.geometry": dict(sh),
            "shapely.geometry.polygon": {"orient": lambda s, sign=1.0: s, "Polygon": self.Polygon},
            "shapely.ops": {"unary_union": self.unary_union},
            "rasterio": {"Affine": Affine},
            "rasterio.features": {"rasterize": self.rasterize},
            "rasterio.transform": {"from_bounds": self.from_bounds, "from_origin": self.from_origin, "Affine": Affine},
            "pyvista": {"MultiBlock": lambda lst=(): Mesh(), "PolyData": Mesh, "ImageData": Grid, "read": read},
            "vtk": {"vtkObject": type("vtkObject", (), {"GlobalWarningDisplayOff": staticmethod(lambda: None)})},
        })


def _is_num(ctx, s):
    return ctx.num(s) is not None if not isinstance(s, (list, tuple)) and not hasattr(s, "shape") else (hasattr(s, "shape") and s.shape == ())
