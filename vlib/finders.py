"""The path finders of the real library, as (name, call) where call(inputs, output, sizes, limit) -> path."""


def norm_path(path):
    """list of lists of plain ints, or None if it is not a sequence of sequences of integers"""
    try:
        res = []
        for step in path:
            if isinstance(step, (str, bytes)):
                return None
            row = []
            for x in step:
                if isinstance(x, bool) or not hasattr(x, "__index__"):
                    return None
                row.append(int(x))
            res.append(row)
        return res
    except TypeError:
        return None


def cost_custom(size12, size1, size2, k12, k1, k2):
    return size12 * 2 - max(size1, size2)


def finders(oe, rng, n, dense=False):
    """finders that are affordable for n operands"""
    from opt_einsum import paths, path_random
    F = []

    def named(name):
        F.append((name, lambda i, o, s, l: paths.get_path_fn(name)(i, o, s, l)))

    for name in ("auto", "greedy", "eager", "opportunistic", "branch-1", "random-greedy"):
        named(name)
    F.append(("greedy()", lambda i, o, s, l: paths.greedy(i, o, s, l)))
    F.append(("greedy(jitter)", lambda i, o, s, l: paths.greedy(i, o, s, l, cost_fn="memory-removed-jitter")))
    F.append(("greedy(custom)", lambda i, o, s, l: paths.greedy(i, o, s, l, cost_fn=cost_custom)))
    for m in ("flops", "size"):
        t = rng.choice([0.0, 0.5, 1.0, 10.0])
        nb = rng.choice([1, 2, 8, 30])
        rel = rng.random() < 0.5
        F.append(("RandomGreedy(%s,%s,%s)" % (m, t, nb),
                  lambda i, o, s, l, m=m, t=t, nb=nb, rel=rel: oe.RandomGreedy(max_repeats=3, minimize=m, temperature=t, nbranch=nb, rel_temperature=rel)(i, o, s, l)))
    t2, rel2 = rng.choice([0, 1e-3, 0.3, 1, 40]), rng.random() < 0.5
    F.append(("RandomGreedy(memory-removed,%s,%s)" % (t2, rel2), lambda i, o, s, l: oe.RandomGreedy(max_repeats=4, cost_fn="memory-removed", temperature=t2, rel_temperature=rel2)(i, o, s, l)))
    if n <= 9:
        named("branch-2")
        for m in ("flops", "size"):
            nb = rng.choice([1, 2, 3])
            cf = rng.choice([1, 2, 4, 100, 1.5, 7.25, float('inf')])
            F.append(("BranchBound(%s,%s,%s)" % (nb, m, cf), lambda i, o, s, l, nb=nb, m=m, cf=cf: oe.BranchBound(nbranch=nb, minimize=m, cutoff_flops_factor=cf)(i, o, s, l)))
        F.append(("BranchBound(custom)", lambda i, o, s, l: oe.BranchBound(nbranch=2, cost_fn=cost_custom)(i, o, s, l)))
    if n <= 6:
        named("branch-all")
        named("optimal")
        F.append(("branch()", lambda i, o, s, l: paths.branch(i, o, s, l)))
    if n <= (8 if dense else 12):
        named("dp")
        named("dynamic-programming")
        named("auto-hq")
        for m in rng.sample(["flops", "size", "write", "combo", "limit", "combo-5", "limit-200"], 3):
            cc = rng.choice([True, True, False, 10])
            so = rng.random() < 0.4 and n <= 7
            F.append(("DP(%s,%s,%s)" % (m, so, cc), lambda i, o, s, l, m=m, so=so, cc=cc: oe.DynamicProgramming(minimize=m, search_outer=so, cost_cap=cc)(i, o, s, l)))
    if n <= 5:
        named("random-greedy-128")
    return F


def may_fail(name, limit, exc):
    """dynamic programming documents an error for unsatisfiable limits"""
    dp = name.startswith("DP") or name in ("dp", "dynamic-programming", "auto-hq")
    return bool(dp and limit not in (None, -1) and exc == "RuntimeError")
