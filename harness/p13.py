"""Connected components and connection rules."""

from .common import H, unlin

BOUNDS = ("every assignment of the voxels of 2x2x1, 3x1x1, 1x2x2, 1x1x4 (and larger fixed structures) to up to 3 domains or no domain (solver choices), "
          "1 to 3 rules with up to 3 groups of up to 2 domains")
ASSUMPTIONS = ["domains are disjoint (property P10)", "for a required adjacency, at least one group is not empty", "at least one voxel is not empty"]


def neighbours(n, a, b):
    (p, q) = (unlin(a, n), unlin(b, n))
    return sum(abs(x-y) for (x, y) in zip(p, q)) == 1


def components(n, vox):
    vox = list(vox)
    out = []
    while vox:
        comp = [vox.pop()]
        for x in comp:
            new = [y for y in vox if neighbours(n, x, y)]
            vox = [y for y in vox if y not in new]
            comp += new
        out.append(sorted(comp))
    return out


def rule_ok(n, dom, comps, kind, groups, required):
    """Is the rule satisfied? None if it is not specified (no voxel at all)."""
    grp = [set(v for t in g for v in dom[t]) for g in groups]
    grp = [g for g in grp if g]
    if kind == "connected":
        hits = [len([g for g in grp if g & set(c)]) for c in comps]
        return any(h == len(grp) for h in hits) if required else all(h <= 1 for h in hits)
    if required and not grp:
        return None

    def touch(g, h):
        return bool(g & h) or any(neighbours(n, a, b) for a in g for b in h)
    if required:
        return any(all(touch(g, h) for h in grp) for g in grp)
    return not any(touch(g, h) for (i, g) in enumerate(grp) for h in grp[:i])


def h_integrity(ctx, n, dom, rules, order):
    vi = ctx.load("pypeec.lib_mesher.voxel_integrity")
    pool = list(range(n[0]*n[1]*n[2]))
    if isinstance(dom, str):
        own = [ctx.conc(ctx.int("own%d" % v, 0, len(dom))) for v in pool]
        dom = {t: [v for v in pool if own[v] == i+1] for (i, t) in enumerate(dom)}
        if order:
            dom = {t: v[::-1] for (t, v) in reversed(dom.items())}
    if not any(dom.values()):
        ctx.assume(False)
    con, adj = {}, {}
    unknown = False
    for (i, (kind, groups, required)) in enumerate(rules):
        unknown = unknown or any(t not in dom for g in groups for t in g)
        (con if kind == "connected" else adj)["r%d" % i] = {"domain_group": [list(g) for g in groups], "connected": required}
    dd = {t: ctx.arr(v, "i") for (t, v) in dom.items()}
    (err, res) = ctx.raises(vi.get_integrity, tuple(n), dd, {"domain_connected": con, "domain_adjacent": adj})
    comps = components(n, [v for lst in dom.values() for v in lst])
    if unknown:
        ctx.check("rules with unknown domains are rejected", err is not None)
        return
    oks = [rule_ok(n, dom, comps, *r) for r in rules]
    if None in oks:
        ctx.assume(False)
    ctx.check("accepted if and only if the rules are satisfied", (err is None) == all(oks))
    if err is None:
        got = [sorted(ctx.ints(g)) for g in res]
        ctx.check("connected components", sorted(got) == sorted(comps))


C2 = ("connected", [["a"], ["b"]], True)
N2 = ("connected", [["a"], ["b"]], False)
A2 = ("adjacent", [["a"], ["b"]], True)
M2 = ("adjacent", [["a"], ["b"]], False)
C3 = ("connected", [["a"], ["b"], ["c"]], True)
N3 = ("connected", [["a"], ["b"], ["c"]], False)
A3 = ("adjacent", [["a"], ["b"], ["c"]], True)
M3 = ("adjacent", [["a"], ["b"], ["c"]], False)
CU = ("connected", [["a", "c"], ["b"]], True)
NU = ("connected", [["b"], ["c", "a"]], False)
AU = ("adjacent", [["a", "c"], ["b"]], True)
MU = ("adjacent", [["b"], ["c", "a"]], False)
HARNESSES = []
for n in ((2, 2, 1), (3, 1, 1), (1, 2, 2), (1, 1, 4), (2, 1, 2)):
    nm = "%d%d%d" % n
    for (t, r) in (("C2", C2), ("N2", N2), ("A2", A2), ("M2", M2)):
        HARNESSES.append(H("%s/%s" % (nm, t), h_integrity, n=n, dom="ab", rules=[r], order=n[0] == 1))
for n in ((2, 2, 1), (1, 3, 1), (1, 1, 4)):
    nm = "%d%d%d" % n
    for (t, r) in (("C3", C3), ("N3", N3), ("A3", A3), ("M3", M3), ("CU", CU), ("NU", NU), ("AU", AU), ("MU", MU)):
        HARNESSES.append(H("%s/%s" % (nm, t), h_integrity, n=n, dom="abc", rules=[r], order=n[1] == 3))
HARNESSES.append(H("two/221", h_integrity, n=(2, 2, 1), dom="abc", rules=[C2, ("adjacent", [["c"], ["b"]], False)], order=False))
HARNESSES.append(H("two/114", h_integrity, n=(1, 1, 4), dom="abc", rules=[("connected", [["a"], ["c"]], False), ("adjacent", [["a"], ["b"]], True)], order=False))
HARNESSES.append(H("three/113", h_integrity, n=(1, 1, 3), dom="abc", rules=[A2, ("adjacent", [["c"], ["b"]], True), ("connected", [["a"], ["c"]], False)], order=True))
HARNESSES.append(H("none/212", h_integrity, n=(2, 1, 2), dom="abc", rules=[], order=True))
HARNESSES.append(H("unknown/connected", h_integrity, n=(2, 1, 1), dom="ab", rules=[("connected", [["a"], ["x"]], True)], order=False))
HARNESSES.append(H("unknown/adjacent", h_integrity, n=(2, 1, 1), dom="ab", rules=[("adjacent", [["a"], ["x"]], False)], order=False))
FX = {"a": [0, 1, 4], "b": [13, 12, 22], "c": [26, 25, 9]}
for (i, r) in enumerate([[C3], [N3], [A3], [M3], [CU], [NU], [AU], [MU]]):
    HARNESSES.append(H("fixed/%d" % i, h_integrity, n=(3, 3, 3), dom=FX, rules=r, order=False))
for (t, r) in (("C3", C3), ("N3", N3), ("A3", A3), ("M3", M3), ("CU", CU), ("NU", NU), ("AU", AU), ("MU", MU)):
    HARNESSES.append(H("deep/321/%s" % t, h_integrity, tier="thorough", n=(3, 2, 1), dom="abc", rules=[r], order=False))
    HARNESSES.append(H("deep/131/%s" % t, h_integrity, tier="thorough", n=(1, 5, 1), dom="abc", rules=[r], order=False))
for (t, r) in (("C2", C2), ("N2", N2), ("A2", A2), ("M2", M2)):
    HARNESSES.append(H("deep/222/%s" % t, h_integrity, tier="thorough", n=(2, 2, 2), dom="ab", rules=[r], order=False))
