"""C25: the branch searches keep their documented promises."""
from vlib import gen
from vlib.finders import norm_path


def fns(rng):
    a, b = rng.randint(1, 5), rng.randint(0, 5)
    F = [("linear", {"k": "linear", "a": a, "b": b}, lambda s12, s1, s2, k12, k1, k2: a * s12 - b * (s1 + s2)),
         ("result", {"k": "result"}, lambda s12, s1, s2, k12, k1, k2: s12),
         ("negative", {"k": "negative"}, lambda s12, s1, s2, k12, k1, k2: -s12)]
    return rng.choice(F) if rng.random() < 0.4 else ("memory-removed", {"k": "linear", "a": 1, "b": 1}, "memory-removed")


def rec_main(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    for it in range(ctx.share(ctx.pick(1500, 20000))):
        n = rng.choice([3, 3, 4, 4, 4, 5, 5, 5, 6])
        nb = rng.choice([0, 0, 1, 1, 2, 3])
        cut = rng.choice([0, 0, 0, 4, 4, 1, 2, 20])
        obj = rng.choice(["flops", "size"])
        if nb == 1 and rng.random() < 0.5:
            n = rng.choice([7, 9, 12])
        elif nb == 2 and cut == 0 and rng.random() < 0.3:
            n = 7
        if n == 6 and (cut or nb != 2) and rng.random() < 0.7:
            n = 5
        deep = n <= 6 or (n == 7 and nb == 2 and cut == 0)
        terms, out, NL = gen.network(rng, n, rng.randint(max(1, n // 2), 2 + n + n // 2), max_rank=4, p_repeat=0.03, p_dup=rng.choice([0, 0, 0.2]), p_out=rng.choice([0.05, 0.2, 0.5, 0.9]))
        pool = rng.choice([[2], [2, 3], [2, 3, 4, 5], [2, 5, 9], [1, 2, 3]])
        while True:
            sizes = [rng.choice(pool) for _ in range(NL)]
            if gen.prod(sizes) < 2 ** 25:
                break
            pool = [1, 2, 2, 2] if min(pool) < 2 or NL > 24 else [2]
        names = gen.names_for(rng, max(1, NL))
        sd = {names[i]: sizes[i] for i in range(NL)}
        fname, f, cost = fns(rng)
        eq = gen.eq_of(terms, out, names)
        sets = [frozenset(names[x - 1] for x in t) for t in terms]
        oset = frozenset(names[x - 1] for x in out)
        shapes = [tuple(sizes[x - 1] for x in t) for t in terms]
        kw = dict(nbranch=nb or None, cutoff_flops_factor=cut or float("inf"), minimize=obj, cost_fn=cost)
        how = rng.choice(["object", "branch", "path", "name", "name"])
        name = ""
        if how == "name":
            choice = {3: ["branch-all", "branch-2", "branch-1"], 4: ["branch-all", "branch-2", "branch-1"], 5: ["branch-all", "branch-2", "branch-1", "auto"], 6: ["branch-2", "branch-1", "auto"], 7: ["branch-1"]}
            name = rng.choice(choice.get(n, ["branch-1", "auto"]))
            nb = {"branch-all": 0, "branch-2": 2, "branch-1": 1, "auto": 0 if n < 7 else 1}[name]
            cut, obj, f, fname, deep = 4, "flops", {"k": "linear", "a": 1, "b": 1}, "memory-removed", n <= 6
            call = (lambda: paths.get_path_fn(name)(sets, oset, sd)) if rng.random() < 0.5 else (lambda: oe.contract_path(eq, *shapes, shapes=True, optimize=name)[0])
        elif how == "object":
            call = lambda: paths.BranchBound(**kw)(sets, oset, sd)
        elif how == "branch":
            call = lambda: paths.branch(sets, oset, sd, **kw)
        else:
            call = lambda: oe.contract_path(eq, *shapes, shapes=True, optimize=oe.BranchBound(**kw))[0]
        ctx.doing((eq, sizes, kw, name))
        r = ctx.call(call, 60)
        p = norm_path(r[1]) if r[0] == "ok" else []
        ctx.emit({"terms": terms, "out": out, "sizes": sizes, "f": f, "nb": nb, "cut": cut, "obj": obj, "deep": deep, "path": p or [],
                  "e": "" if r[0] == "ok" and p is not None else (r[1] if r[0] == "err" else "NotAPath")},
                 {"eq": eq, "sizes": sizes, "nbranch": nb, "cutoff": cut, "minimize": obj, "cost": fname, "how": name or how, "path": str(p)})


def rec_guided(ctx):
    """networks for which the settings matter: the result of the search changes with the cutoff or the number of branches"""
    from opt_einsum import paths
    rng = ctx.rng
    kept = 0
    for it in range(ctx.pick(2600, 20000)):
        n = rng.choice([4, 5, 5, 6])
        obj = rng.choice(["flops", "size"])
        terms, out, NL = gen.network(rng, n, rng.randint(max(1, n // 2), 2 + n + n // 2), max_rank=4, p_out=rng.choice([.05, .2, .5, .9]))
        pool = rng.choice([[2, 3, 4, 5], [2, 5, 9], [2, 3], [2, 10, 30]])
        sizes = [rng.choice(pool) for _ in range(NL)]
        if gen.prod(sizes) >= 2 ** 25:
            continue
        names = gen.names_for(rng, max(1, NL))
        sd = {names[i]: sizes[i] for i in range(NL)}
        sets = [frozenset(names[x - 1] for x in t) for t in terms]
        oset = frozenset(names[x - 1] for x in out)
        base = {}
        if rng.random() < 0.5:
            base["minimize"] = obj
        else:
            obj = "flops"
        nb0 = rng.choice([0, 0, 2, 3])
        cuts = [(nb0, 2), (nb0, 3), (nb0, 4), (nb0, 5), (nb0, 0)] if rng.random() < 0.7 else [(1, 4), (2, 4), (3, 4), (4, 4), (0, 4)]
        res = []
        for nb, cut in cuts:
            ctx.doing((terms, out, sizes, nb, cut, obj))
            kw = dict(base)
            if nb or rng.random() < 0.3:
                kw["nbranch"] = nb or None
            if cut != 4 or rng.random() < 0.3:
                kw["cutoff_flops_factor"] = cut or float("inf")
            b = paths.BranchBound(**kw)
            r = ctx.call(lambda: b(sets, oset, sd))
            p = norm_path(r[1]) if r[0] == "ok" else []
            res.append((nb, cut, kw, r, p))
        if n == 6 and rng.random() < 0.6:
            continue
        for a, b in zip(res, res[1:]):
            if str(a[4]) == str(b[4]):
                continue
            for nb, cut, kw, r, p in (a, b):
                if kept > ctx.pick(110, 1500):
                    break
                kept += 1
                ctx.emit({"terms": terms, "out": out, "sizes": sizes, "f": {"k": "linear", "a": 1, "b": 1}, "nb": nb, "cut": cut, "obj": obj, "deep": True, "path": p or [],
                          "e": "" if r[0] == "ok" and p is not None else (r[1] if r[0] == "err" else "NotAPath")},
                         {"terms": terms, "out": out, "sizes": sizes, "settings": str(kw), "path": str(p)})


def rec_wide(ctx):
    """many candidates at a step, ordered badly by the cost function; longer networks sensitive to the number of branches"""
    from opt_einsum import paths
    rng = ctx.rng
    negative = lambda s12, s1, s2, k12, k1, k2: -s12

    def go(terms, out, sizes, nb, obj, f, cost):
        NL = len(sizes)
        names = gen.names_for(rng, NL)
        sd = {names[i]: sizes[i] for i in range(NL)}
        sets = [frozenset(names[x - 1] for x in t) for t in terms]
        oset = frozenset(names[x - 1] for x in out)
        ctx.doing((terms, out, sizes, nb, obj))
        r = ctx.call(lambda: paths.BranchBound(nbranch=nb or None, cutoff_flops_factor=float("inf"), minimize=obj, cost_fn=cost)(sets, oset, sd), 60)
        return r, norm_path(r[1]) if r[0] == "ok" else []

    def emit(terms, out, sizes, nb, obj, f, r, p, what):
        ctx.emit({"terms": terms, "out": out, "sizes": sizes, "f": f, "nb": nb, "cut": 0, "obj": obj, "deep": True, "path": p or [],
                  "e": "" if r[0] == "ok" and p is not None else (r[1] if r[0] == "err" else "NotAPath")},
                 {"terms": terms, "out": out, "sizes": sizes, "nbranch": nb, "cutoff": "inf", "minimize": obj, "cost": what, "path": str(p)})
    for it in range(ctx.pick(10, 100)):
        n = 6
        terms, sizes = [[] for _ in range(n)], []
        for i in range(n):
            for j in range(i):
                if rng.random() < 0.93:
                    sizes.append(rng.choice([1, 1, 2, 2, 3, 5]))
                    terms[i].append(len(sizes))
                    terms[j].append(len(sizes))
        while gen.prod(sizes) >= 2 ** 24:
            sizes[rng.randrange(len(sizes))] = 1
        out = [x for x in range(1, len(sizes) + 1) if rng.random() < 0.05]
        obj = rng.choice(["flops", "size"])
        nb = rng.choice([0, 0, 0, 14])
        r, p = go(terms, out, sizes, nb, obj, {"k": "negative"}, negative)
        emit(terms, out, sizes, nb, obj, {"k": "negative"}, r, p, "negative")
    kept = 0
    for it in range(ctx.pick(400, 4000)):
        n = rng.choice([7, 7, 7, 8])
        terms, out, NL = gen.network(rng, n, rng.randint(n, n + n // 2), max_rank=4, p_out=rng.choice([.05, .2]), kind=rng.choice(["graph", "chain", "graph", None]))
        if not NL:
            continue
        pool = rng.choice([[2, 3, 4, 5], [2, 5, 9], [2, 3], [2, 10, 30]])
        sizes = [rng.choice(pool) for _ in range(NL)]
        if gen.prod(sizes) >= 2 ** 25:
            continue
        obj = rng.choice(["flops", "flops", "size"])
        nb = 2 if n == 8 else rng.choice([2, 2, 3])
        f, cost, what = ({"k": "linear", "a": 1, "b": 1}, "memory-removed", "memory-removed") if rng.random() < 0.6 else ({"k": "negative"}, negative, "negative")
        r, p = go(terms, out, sizes, nb, obj, f, cost)
        r1, p1 = go(terms, out, sizes, nb - 1, obj, f, cost)
        if str(p) != str(p1) and kept < ctx.pick(16, 200):
            kept += 1
            emit(terms, out, sizes, nb, obj, f, r, p, what)


def plan(c):
    c.model("MC_Branch", c.pick("MC_Branch.cfg", "MC_Branch4.cfg"), expect_min=200000)
    if not c.quick:
        c.model("MC_Branch", "MC_Branch3.cfg")
    c.judge("T_Branch", c.record("main"), name="paths of the branch searches", states_per=lambda rs: sum((len(r["case"]["terms"]) if r["case"]["deep"] and not r["case"]["e"] else 1) + 1 for r in rs))
    c.judge("T_Branch", c.record("guided"), name="networks sensitive to the settings", states_per=lambda rs: sum((len(r["case"]["terms"]) if not r["case"]["e"] else 1) + 1 for r in rs))
    c.judge("T_Branch", c.record("wide"), name="many candidates, and longer networks sensitive to the number of branches", states_per=lambda rs: sum((len(r["case"]["terms"]) if not r["case"]["e"] else 1) + 1 for r in rs))
