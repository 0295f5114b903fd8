"""C23: the greedy search follows its documented strategy."""
from vlib import gen
from vlib.finders import norm_path


def fns(rng):
    a, b = rng.randint(1, 5), rng.randint(0, 5)
    F = [
        ("memory-removed", {"k": "linear", "a": 1, "b": 1}, None),
        ("linear", {"k": "linear", "a": a, "b": b}, lambda s12, s1, s2, k12, k1, k2: a * s12 - b * (s1 + s2)),
        ("result", {"k": "result"}, lambda s12, s1, s2, k12, k1, k2: s12),
        ("largest", {"k": "largest"}, lambda s12, s1, s2, k12, k1, k2: 2 * s12 - max(s1, s2)),
        ("negative", {"k": "negative"}, lambda s12, s1, s2, k12, k1, k2: -s12),
    ]
    return rng.choice([F[0], F[0], rng.choice(F[1:])])


def rec_main(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    for it in range(ctx.share(ctx.pick(30000, 150000))):
        n = rng.choice([2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 13])
        terms, out, NL = gen.network(rng, n, rng.randint(max(1, n // 2), 2 + n + n // 2), max_rank=4, p_repeat=0.05, p_dup=rng.choice([0, 0.2]), p_out=rng.choice([0.05, 0.2, 0.5]))
        if n >= 8 and rng.random() < 0.5:        # labels on many operands (but not on all)
            for _ in range(rng.randint(1, 2)):
                NL += 1
                for i in rng.sample(range(n), rng.randint(n // 2 + 1, n - 1)):
                    terms[i].append(NL)
        pool = rng.choice([[2], [2, 3], [2, 3, 4, 5], [2, 5, 9], [1, 2, 3]])
        while True:
            sizes = [rng.choice(pool) for _ in range(NL)]
            if gen.prod(sizes) < 2 ** 27:
                break
            pool = [1, 2, 2, 2] if min(pool) < 2 or NL > 26 else [2]
        names = gen.names_for(rng, max(1, NL))
        num = {ch: i + 1 for i, ch in enumerate(names)}
        sd = {names[i]: sizes[i] for i in range(NL)}
        fname, f, cost = fns(rng)
        args = []
        eq = gen.eq_of(terms, out, names)

        def spy(s12, s1, s2, k12, k1, k2):
            if len(args) < 12 or rng.random() < 0.02 and len(args) < 40:
                args.append({"s12": int(s12), "s1": int(s1), "s2": int(s2), "k12": sorted(num[x] for x in k12), "k1": sorted(num[x] for x in k1), "k2": sorted(num[x] for x in k2)})
            return cost(s12, s1, s2, k12, k1, k2)
        sets = [frozenset(names[x - 1] for x in t) for t in terms]
        oset = frozenset(names[x - 1] for x in out)
        how = rng.choice(["fn", "fn", "path"]) if cost is None and n > 2 else "fn"
        ctx.doing((eq, sizes, fname, how))
        if how == "path":
            shapes = [tuple(sizes[x - 1] for x in t) for t in terms]
            r = ctx.call(lambda: oe.contract_path(eq, *shapes, shapes=True, optimize=rng.choice(["greedy", "eager", "opportunistic"]))[0])
        elif cost is None:
            r = ctx.call(lambda: paths.greedy(sets, oset, sd))
        else:
            r = ctx.call(lambda: paths.greedy(sets, oset, sd, cost_fn=spy))
        p = norm_path(r[1]) if r[0] == "ok" else []
        ctx.emit({"terms": terms, "out": out, "sizes": sizes, "f": f, "path": p or [], "e": "" if r[0] == "ok" and p is not None else (r[1] if r[0] == "err" else "NotAPath"), "args": args},
                 {"eq": eq, "sizes": sizes, "cost": fname, "path": str(p)})


def plan(c):
    c.model("MC_Greedy")
    if not c.quick:
        c.model("MC_Greedy", "MC_Greedy4.cfg")
    c.judge("T_Greedy", c.record("main"), name="greedy paths", states_per=lambda rs: sum(len(r["case"]["path"]) + 2 for r in rs))
