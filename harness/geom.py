"""Problem geometry of the harnesses, produced by the real functions (get_material_idx, get_source_idx, ...)."""

from .common import orders


def definition(mat, src):
    """Material and source definitions: {tag: (type, domain list)} or {tag: (type, domain list, var_type, orientation)}."""
    m = {}
    for (tag, spec) in mat.items():
        (typ, lst, var, ori) = (tuple(spec)+("lumped", "isotropic")[len(spec)-2:])
        m[tag] = {"material_type": typ, "domain_list": list(lst), "var_type": var, "orientation_type": ori}
    s = {}
    for (tag, spec) in src.items():
        (typ, lst, var) = (tuple(spec)+("lumped",)[len(spec)-2:])
        s[tag] = {"source_type": typ, "domain_list": list(lst), "var_type": var}
    return m, s


def geometry(ctx, pg, dom, mat, src, order):
    """Returns (idx_vc, idx_vm, material, idx_src_c, idx_src_v, source) with plain voxel lists."""
    if order != "up":
        mat = {t: (s[0], orders(s[1], order))+tuple(s[2:]) for (t, s) in reversed(mat.items())}
    (mdef, sdef) = definition(mat, src)
    dd = {t: ctx.arr(v, "i") for (t, v) in dom.items()}
    (vc, vm, material) = pg.get_material_idx(mdef, dd)
    (sc, sv, source) = pg.get_source_idx(sdef, dd)
    material = pg.get_material_pos(material, vc, vm)
    source = pg.get_source_pos(source, vc, sc, sv)
    return ctx.ints(vc), ctx.ints(vm), material, ctx.ints(sc), ctx.ints(sv), source


def zero_operator(ctx, k):
    def op(x):
        return ctx.np.zeros(k, dtype=ctx.np.complex128)
    return op
