"""C04: the exhaustive search is optimal."""
from vlib import gen
from vlib.finders import norm_path
from vlib.props.c03 import big


def case_of(terms, out, sizes, L, obj, path, e="", alpha=0, outer=True, lim=None):
    return {"terms": terms, "out": out, "sizes": [sizes[x] for x in range(1, L + 1)], "obj": obj, "alpha": alpha, "outer": outer,
            "haslim": lim is not None, "lim": big(lim or 0), "path": path, "e": e}


def run(ctx, name, call, terms, out, sizes, L, names, obj, **kw):
    eq = gen.eq_of(terms, out, names)
    ctx.doing((name, eq, sizes, kw))
    r = ctx.call(call, 60)
    path, e = [], ""
    if r[0] == "ok":
        path = norm_path(r[1])
        if path is None:
            path, e = [], "not-a-path"
    else:
        e = r[1]
    ctx.emit(case_of(terms, out, sizes, L, obj, path, e, **kw), {"finder": name, "eq": eq, "sizes": {names[x - 1]: s for x, s in sizes.items()}, "result": str(r[1])[:200],
                                                                 "options": {k: str(v) for k, v in kw.items()}})


POOLS = [[2], [2, 3, 4], [1, 2, 5], [2, 10, 100], [0, 2, 3], [10 ** 6, 7, 2], [3, 3, 3, 50], [2, 2 ** 20, 3 ** 10], [2 ** 30 - 1, 2 ** 30, 2 ** 30 + 1]]


def pick_net(rng, n, hi=1.7):
    kind = rng.choice([None, None, None, "equal"])
    if kind == "equal":
        # operands with equal index sets, where results of merges are easily confused
        base, out, L = gen.network(rng, rng.randint(2, 3), rng.randint(2, 5), max_rank=3, kind=rng.choice(["random", "graph"]))
        terms = [list(rng.choice(base)) for _ in range(n)]
    else:
        terms, out, L = gen.network(rng, n, rng.randint(1, max(2, int(hi * n))), max_rank=4, p_dup=rng.choice([0, 0, 0.3]), p_repeat=rng.choice([0, 0, 0.1]), p_scalar=0.05)
    used = sorted({x for t in terms for x in t})
    m = {x: i + 1 for i, x in enumerate(used)}
    return [[m[x] for x in t] for t in terms], [m[x] for x in out if x in m], len(m)


def rec_main(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(3000, 20000))):
        n = rng.choice([2, 3, 3, 4, 4, 4, 5, 5, 5, 6])
        terms, out, L = pick_net(rng, n)
        sizes = {x: rng.choice(p) for p in [rng.choice(POOLS)] for x in range(1, L + 1)}
        names = gen.names_for(rng, L)
        ins = [frozenset(names[x - 1] for x in t) for t in terms]
        o = frozenset(names[x - 1] for x in out)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        shapes = [tuple(sizes[x] for x in t) for t in terms]
        eq = gen.eq_of(terms, out, names)
        which = ["optimal", "optimal", "contract_path"] + (["auto"] if n <= 4 else []) + (["auto-hq"] if n <= 5 else [])
        w = rng.choice(which)
        lim = None
        if w == "contract_path":
            f = lambda: oe.contract_path(eq, *shapes, shapes=True, optimize="optimal")[0]
        elif w == "optimal":
            if n <= 5 and rng.random() < 0.3 and all(sizes.values()):
                mx = max(gen.prod(sizes[x] for x in set(t)) for t in terms)
                lim = rng.choice([1, 2, 6, mx, mx, 2 * mx])
            f = lambda: paths.optimal(ins, o, sd, lim)
        else:
            f = lambda: paths.get_path_fn(w)(ins, o, sd)
        run(ctx, w, f, terms, out, sizes, L, names, "pair", lim=lim)


def rec_seven(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(32, 400))):
        terms, out, L = pick_net(rng, 7, 1.2)
        sizes = {x: rng.choice([2, 3, 4]) for x in range(1, L + 1)}
        names = gen.names_for(rng, L)
        ins = [frozenset(names[x - 1] for x in t) for t in terms]
        o = frozenset(names[x - 1] for x in out)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        run(ctx, "optimal", lambda: paths.optimal(ins, o, sd), terms, out, sizes, L, names, "pair")


def plan(c):
    c.model("MC_Search", c.pick("MC_Search.cfg", "MC_Search4.cfg"), expect_min=20000)
    c.model("MC_Limit", c.pick("MC_Limit.cfg", "MC_Limit4.cfg"), expect_min=10000)
    recs = c.record("main") + c.record("seven")
    c.judge("T_Search", recs, states_per=lambda rs: sum(len(r["case"]["terms"]) + 2 for r in rs))
