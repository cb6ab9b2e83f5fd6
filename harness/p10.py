"""Resolution of the conflicts between domains."""

from .common import H

BOUNDS = ("3 domains with up to 3 voxels each (5 in total), voxel indices symbolic in a range of 4 to 6 values, 1 to 3 rules with up to 2 domains per side, "
          "every outcome of the random permutation; up to 5 entries for the random resolution")
ASSUMPTIONS = ["the voxels of one domain are distinct", "numpy.random.permutation returns any permutation"]


def member(ctx, lst, v):
    return ctx.Or(*[x == v for x in lst]) if lst else False


def h_conflict(ctx, sizes, k, rules, use_rules, use_random):
    vc = ctx.load("pypeec.lib_mesher.voxel_conflict")
    dom = {}
    for (t, m) in sizes.items():
        dom[t] = [ctx.int("%s%d" % (t, i), 0, k-1) for i in range(m)]
        for i in range(m):
            for j in range(i):
                ctx.assume(dom[t][i] != dom[t][j])
    dd = {t: ctx.arr(v, "i") for (t, v) in dom.items()}
    opt = {"resolve_rules": use_rules, "resolve_random": use_random,
           "conflict_rules": [{"domain_resolve": list(b), "domain_keep": list(a)} for (a, b) in rules]}
    (err, res) = ctx.raises(vc.get_conflict, dd, opt)

    mem = {t: [member(ctx, lst, v) for v in range(k)] for (t, lst) in dom.items()}
    known = all(t in dom for (a, b) in rules for t in list(a)+list(b))
    if use_rules and not known:
        ctx.check("rules with unknown domains are rejected", isinstance(err, Exception))
        return
    if use_rules:
        for (keep, resolve) in rules:
            for a in keep:
                for b in resolve:
                    mem[b] = [ctx.And(q, ctx.Not(p)) for (p, q) in zip(mem[a], mem[b])]
    tags = sorted(dom)
    clash = []
    for v in range(k):
        for (i, a) in enumerate(tags):
            for b in tags[:i]:
                clash.append(ctx.And(mem[a][v], mem[b][v]))
    if err is not None:
        if use_random:
            ctx.fail("the random resolution never fails")
        ctx.check("error without a conflict", ctx.Or(*clash))
        return
    ctx.check("domain names", sorted(res.keys()) == tags)
    out = {t: ctx.lst(res[t]) for t in tags}
    new = {t: [member(ctx, out[t], v) for v in range(k)] for t in tags}
    for t in tags:
        ctx.check("no other voxels", ctx.And(True, *[ctx.And(0 <= x, x < k) for x in out[t]]))
        ctx.check("no voxel is duplicated", ctx.And(True, *[x != y for (i, x) in enumerate(out[t]) for y in out[t][:i]]))
    for v in range(k):
        if use_random:
            for t in tags:
                ctx.check("only domains which contained the voxel", ctx.Implies(new[t][v], mem[t][v]))
            one = ctx.Or(*[mem[t][v] for t in tags])
            ctx.check("no voxel is lost", ctx.Implies(one, ctx.Or(*[new[t][v] for t in tags])))
        else:
            for t in tags:
                ctx.check("exactly the shared voxels are removed", ctx.Iff(new[t][v], mem[t][v]))
        ctx.check("no voxel in two domains", ctx.Not(ctx.Or(*[ctx.And(new[a][v], new[b][v]) for (i, a) in enumerate(tags) for b in tags[:i]])))


HARNESSES = []
R1 = [(["a"], ["b"])]
R2 = [(["a"], ["b", "c"]), (["b"], ["c"])]
R3 = [(["c"], ["a"]), (["a", "c"], ["b"])]
R4 = [(["a", "b"], ["c"])]
R5 = [(["a"], ["b"]), (["b"], ["a"]), (["c"], ["b"])]
for (i, (s, k, rules)) in enumerate([
        ({"a": 2, "b": 2}, 4, R1), ({"a": 2, "b": 2, "c": 1}, 5, R2), ({"a": 1, "b": 2, "c": 2}, 5, R3), ({"a": 1, "b": 2, "c": 2}, 5, R4),
        ({"a": 1, "b": 2, "c": 1}, 4, R5), ({"a": 3, "b": 2, "c": 0}, 5, R1), ({"a": 0, "b": 2, "c": 2}, 4, R3)]):
    HARNESSES.append(H("rules/%d" % i, h_conflict, sizes=s, k=k, rules=rules, use_rules=True, use_random=False))
    HARNESSES.append(H("off/%d" % i, h_conflict, sizes=s, k=k, rules=rules, use_rules=False, use_random=False))
for (i, (s, k, rules)) in enumerate([
        ({"a": 2, "b": 1}, 3, R1), ({"a": 1, "b": 1, "c": 1}, 3, R2), ({"a": 2, "b": 1, "c": 1}, 3, R1), ({"b": 2, "a": 2}, 3, R1)]):
    HARNESSES.append(H("random/%d" % i, h_conflict, sizes=s, k=k, rules=rules, use_rules=False, use_random=True))
    HARNESSES.append(H("both/%d" % i, h_conflict, sizes=s, k=k, rules=rules, use_rules=True, use_random=True))
HARNESSES.append(H("unknown/keep", h_conflict, sizes={"a": 1, "b": 1}, k=3, rules=[(["x"], ["b"])], use_rules=True, use_random=False))
HARNESSES.append(H("unknown/resolve", h_conflict, sizes={"a": 1, "b": 1}, k=3, rules=[(["a"], ["b", "x"])], use_rules=True, use_random=True))
HARNESSES.append(H("random/5", h_conflict, tier="thorough", sizes={"a": 2, "b": 2, "c": 1}, k=4, rules=R2, use_rules=False, use_random=True))
HARNESSES.append(H("rules/big", h_conflict, tier="thorough", sizes={"a": 3, "b": 3, "c": 2}, k=6, rules=R2, use_rules=True, use_random=False))
