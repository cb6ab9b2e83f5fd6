"""Consistency checks of the problem definition."""

import itertools
from .common import H, subset
from . import geom

BOUNDS = ("index level: up to 3 electric, 2 magnetic and 3 source voxels with symbolic indices in a range of 4 or 5, up to 3 connected components; definition "
          "level: 2 materials of all types and 2 sources with every choice of up to 2 of 4 domains (one unknown, one empty); tags: lists with up to 3 tags")
ASSUMPTIONS = ["the components of the voxel structure are a partition (property P13)"]


def isin(ctx, x, lst):
    return ctx.Or(*[x == y for y in lst]) if lst else False


def distinct(ctx, lst):
    return ctx.And(True, *[x != y for (i, x) in enumerate(lst) for y in lst[:i]])


def h_indices(ctx, k, n_vc, n_vm, n_c, n_v, graph):
    pg = ctx.load("pypeec.lib_solver.problem_geometry")

    def ints(name, m):
        return [ctx.int("%s%d" % (name, i), 0, k-1) for i in range(m)]
    (vc, vm, sc, sv) = (ints("vc", n_vc), ints("vm", n_vm), ints("sc", n_c), ints("sv", n_v))
    gr = [ctx.arr(g, "i") for g in graph]
    (err, res) = ctx.raises(pg.get_problem_type, ctx.arr(vc, "i"), ctx.arr(vm, "i"), ctx.arr(sc, "i"), ctx.arr(sv, "i"), gr)
    ok = [n_vc > 0, n_c+n_v > 0, distinct(ctx, vc), distinct(ctx, vm), distinct(ctx, sc+sv)]
    ok += [isin(ctx, s, vc) for s in sc+sv]
    for g in graph:
        elec = ctx.Or(False, *[isin(ctx, v, g) for v in vc])
        src = ctx.Or(False, *[isin(ctx, s, g) for s in sc+sv])
        ok.append(ctx.Implies(elec, src))
    ok = ctx.And(*ok)
    if err is not None:
        ctx.check("consistent problems are accepted", ctx.Not(ok))
    else:
        ctx.check("inconsistent problems are rejected", ok)
        ctx.check("magnetic material", bool(res) == (n_vm > 0))


def pick(ctx, name, pool, most):
    """A list of up to two distinct or equal names."""
    k = ctx.conc(ctx.int(name+"_n", 1, most))
    return [pool[ctx.conc(ctx.int("%s_%d" % (name, i), 0, len(pool)-1))] for i in range(k)]


def h_definition(ctx, types, most):
    pg = ctx.load("pypeec.lib_solver.problem_geometry")
    dom = {"a": [0, 1], "b": [5], "e": []}
    graph = [[0, 1], [5]]
    pool = ["a", "b", "x", "e"]
    (t1, t2, s1) = types
    mat = {"m": (t1, pick(ctx, "m", pool[:3], most)), "n": (t2, pick(ctx, "n", pool[1:], 1))}
    src = {"s": (s1, pick(ctx, "s", pool, most))}
    gr = [ctx.arr(g, "i") for g in graph]

    def run():
        (mdef, sdef) = geom.definition(mat, src)
        dd = {t: ctx.arr(v, "i") for (t, v) in dom.items()}
        (vc, vm, material) = pg.get_material_idx(mdef, dd)
        (sc, sv, source) = pg.get_source_idx(sdef, dd)
        pg.get_material_pos(material, vc, vm)
        pg.get_source_pos(source, vc, sc, sv)
        res = pg.get_problem_type(vc, vm, sc, sv, gr)
        return [ctx.ints(x) for x in (vc, vm, sc, sv)]
    (err, res) = ctx.raises(run)
    names = [d for s in list(mat.values())+list(src.values()) for d in s[1]]
    ok = "x" not in names
    if ok:
        def vox(kinds, spec):
            return [v for s in spec.values() if s[0] in kinds for d in s[1] for v in dom[d]]
        vc = vox(("electric", "electromagnetic"), mat)
        vm = vox(("magnetic", "electromagnetic"), mat)
        sc = vox(("current",), src)
        sv = vox(("voltage",), src)
        ok = bool(vc) and bool(sc+sv) and set(sc+sv) <= set(vc)
        ok = ok and all(len(set(x)) == len(x) for x in (vc, vm, sc+sv))
        ok = ok and all(set(g) & set(sc+sv) for g in graph if set(g) & set(vc))
    ctx.check("accepted if and only if the problem is consistent", (err is None) == bool(ok))
    if err is None:
        ctx.check("indices of the domains", [sorted(x) for x in res] == [sorted(x) for x in (vc, vm, sc, sv)])


def native(ctx):
    import jsonschema
    if ctx.sym:
        ctx.stub({"jsonschema": {"validate": jsonschema.validate}})


def h_tags(ctx, most):
    native(ctx)
    ck = ctx.load("pypeec.lib_check.check_data_options")
    data = {"geometry": {}, "field": {}}
    k = ctx.conc(ctx.int("k", -1, most))
    pool = ["geometry", "field", "Field", "", 3]
    lst = None if k < 0 else [pool[ctx.conc(ctx.int("t%d" % i, 0, len(pool)-1))] for i in range(k)]
    (err, _) = ctx.raises(ck.check_tag_list, data, lst)
    ctx.check("tags are accepted if and only if they exist", (err is None) == (lst is None or all(t in data for t in lst)))


def h_fields(ctx, what):
    native(ctx)
    ck = ctx.load("pypeec.lib_check.check_data_options")
    req = {"voxel": ["date", "duration", "seconds", "status", "data_geom"],
           "solution": ["date", "duration", "seconds", "status", "data_init", "data_sweep"]}[what]
    have = subset_names(ctx, req)
    status = bool(ctx.bool("status"))
    data = {t: {"name": t} for t in have}
    if "status" in data:
        data["status"] = status
    (err, res) = ctx.raises(getattr(ck, "check_data_"+what), data)
    ctx.check("complete data are accepted and incomplete data are rejected", (err is None) == (len(have) == len(req)))
    if err is None:
        ctx.check("data", [res[0]]+[r["name"] for r in res[1:]] == [status]+req[4:])


def subset_names(ctx, names):
    return [t for t in names if bool(ctx.bool("have_"+t))]


def h_plot(ctx):
    native(ctx)
    ck = ctx.load("pypeec.lib_check.check_data_options")
    mode = ctx.choice("mode", [None, "qt", "nb", "save", "debug", "none", "Qt", 1])
    folder = ctx.choice("folder", [None, "abc", "", 2])
    name = ctx.choice("name", [None, "abc", ""])
    (err, _) = ctx.raises(ck.check_plot_options, mode, folder, name)
    ok = mode in (None, "qt", "nb", "save", "debug") and folder in (None, "abc") and name in (None, "abc")
    ctx.check("plot options", (err is None) == ok)


HARNESSES = []
for (i, (k, a, b, c, d, graph)) in enumerate([
        (4, 2, 0, 1, 1, [[0, 1], [3]]), (4, 3, 1, 1, 0, [[0, 1, 2, 3]]), (4, 2, 2, 0, 1, [[2], [0, 1, 3]]), (4, 2, 1, 2, 0, [[1, 3], [0], [2]]),
        (4, 0, 1, 1, 0, [[0, 1, 2, 3]]), (4, 2, 1, 0, 0, [[0, 1, 2, 3]]), (5, 3, 0, 1, 1, [[0, 4], [1, 2, 3]]), (4, 1, 0, 0, 2, [[0, 2]]), (4, 2, 0, 0, 1, [])]):
    HARNESSES.append(H("indices/%d" % i, h_indices, k=k, n_vc=a, n_vm=b, n_c=c, n_v=d, graph=graph))
for types in itertools.product(("electric", "magnetic", "electromagnetic"), ("electric", "magnetic"), ("current", "voltage")):
    HARNESSES.append(H("definition/%s/%s/%s" % types, h_definition, types=types, most=2))
HARNESSES.append(H("tags/2", h_tags, most=2))
HARNESSES.append(H("tags/3", h_tags, tier="thorough", most=3))
for what in ("voxel", "solution"):
    HARNESSES.append(H("fields/%s" % what, h_fields, what=what))
HARNESSES.append(H("plot", h_plot))
HARNESSES.append(H("indices/big", h_indices, tier="thorough", k=5, n_vc=4, n_vm=2, n_c=1, n_v=1, graph=[[0, 4], [1, 2], [3]]))
