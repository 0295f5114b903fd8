"""C22: path finding depends on the contraction only."""
import random
from vlib import gen
from vlib.finders import norm_path, cost_custom

SEEDS = [0, 1, 77]


def det_finders(oe, rng, n, dense):
    from opt_einsum import paths
    F = {"auto": "auto", "greedy": "greedy", "branch-1": "branch-1", "eager": "eager"}
    F["greedy(custom)"] = lambda i, o, s, l: paths.greedy(i, o, s, l, cost_fn=cost_custom)
    if n <= 8:
        F["branch-2"] = "branch-2"
        nb, m = rng.choice([1, 2, 3]), rng.choice(["flops", "size"])
        F["BB(%s,%s)" % (nb, m)] = lambda i, o, s, l: oe.BranchBound(nbranch=nb, minimize=m)(i, o, s, l)
    if n <= 6:
        F["branch-all"] = "branch-all"
        F["optimal"] = "optimal"
    if n <= (7 if dense else 11):
        F["dp"] = "dp"
        F["auto-hq"] = "auto-hq"
        m2 = rng.choice(["flops", "size", "write", "combo", "limit", "combo-5", "limit-200"])
        so = n <= 6 and rng.random() < 0.4
        cc = rng.choice([True, False, 5])
        F["DP(%s,%s,%s)" % (m2, so, cc)] = lambda i, o, s, l: oe.DynamicProgramming(minimize=m2, search_outer=so, cost_cap=cc)(i, o, s, l)
    if 3 <= n <= 12 and rng.random() < 0.4:
        F["random-greedy"] = "random-greedy"
    k = min(len(F), 4)
    return [(x, F[x]) for x in rng.sample(sorted(F), k)]


def rec_main(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    v = ctx.params["variant"]
    vr = random.Random("variant/%d/%d/%d" % (ctx.seed, ctx.shard, v))
    prev = None
    for it in range(ctx.share(ctx.pick(2800, 20000))):
        n = rng.choice([2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 20, 40])
        kind = rng.choice(["random", "graph", "chain", "batch", "split", "star"])
        dense = kind in ("random", "batch", "star")
        terms, out, NL = gen.network(rng, n, rng.randint(max(1, n // 2), 2 + n + n // 2), max_rank=4, p_repeat=0.05, p_dup=rng.choice([0, 0.15]), kind=kind)
        # few sizes: many ties
        pool = rng.choice([[2], [2, 3], [1, 2], [2, 3, 4, 5], [3, 7, 11, 100]])
        sizes = [rng.choice(pool) for _ in range(NL)]
        finders = det_finders(oe, rng, n, dense)
        limit = rng.choice([None, None, None, rng.choice([4, 16, 64, 300])]) if n <= 8 and "random-greedy" not in dict(finders) else None
        calls = []
        for ren in range(2):
            perm = list(range(1, NL + 1))
            if v or ren:
                vr.shuffle(perm)
            names = gen.names_for(vr, NL)
            ch = lambda x: names[perm[x - 1] - 1]
            T = [[perm[x - 1] for x in t] for t in terms]
            O = [perm[x - 1] for x in out]
            S = [0] * NL
            for x in range(1, NL + 1):
                S[perm[x - 1] - 1] = sizes[x - 1]
            eq = gen.eq_of(T, O, names)
            items = [(names[i], S[i]) for i in range(NL)]
            vr.shuffle(items)
            sd = dict(items)
            for fname, f in finders:
                if prev is not None and vr.random() < 0.3:     # something else first
                    ctx.call(prev, limit=20)
                    random.seed(vr.randint(0, 9))
                ctx.doing((eq, sizes, fname, limit, v))
                if isinstance(f, str) and vr.random() < 0.5:
                    shapes = [tuple(sd[c] for c in t) for t in eq.split("->")[0].split(",")]
                    go = lambda: oe.contract_path(eq, *shapes, shapes=True, optimize=f, memory_limit=limit)[0]
                    r = ctx.call(go) if n > 2 else None
                else:
                    r = None
                if r is None:
                    fn = paths.get_path_fn(f) if isinstance(f, str) else f
                    sets = [frozenset(vr.sample(t, len(t))) for t in ([names[x - 1] for x in t] for t in T)]
                    go = lambda: fn(sets, frozenset(vr.sample([names[x - 1] for x in O], len(O))), dict(sd), limit)
                    r = ctx.call(go)
                prev = go
                ans = {"k": r[0], "p": norm_path(r[1]) if r[0] == "ok" else [], "e": "" if r[0] == "ok" else r[1]}
                calls.append({"finder": fname, "limit": str(limit), "terms": T, "out": O, "sizes": S, "ans": ans})
        ctx.emit({"calls": calls, "distinct": len(finders)}, {"eq": gen.eq_of(terms, out, gen.LETTERS + "".join(gen.UNI)), "sizes": sizes, "limit": limit, "finders": [f for f, _ in finders], "id": "%d/%d" % (ctx.shard, it), "hashseed": v})


def rec_random(ctx):
    """the same trial numbers give the same costs, sizes and paths"""
    import opt_einsum as oe
    rng = ctx.rng
    v = ctx.params["variant"]
    vr = random.Random("random/%d/%d/%d" % (ctx.seed, ctx.shard, v))
    for it in range(ctx.share(ctx.pick(480, 3200))):
        n = rng.choice([3, 4, 5, 7, 10, 15, 25])
        terms, out, NL = gen.network(rng, n, rng.randint(n // 2 + 1, 3 + n), max_rank=5, p_dup=0.1, kind=rng.choice([None, None, "random", "star", "batch"]))
        sizes = [rng.choice([2, 3, 4, 5]) for _ in range(NL)]
        kw = dict(minimize=rng.choice(["flops", "size"]), temperature=rng.choice([0.0, 1.0, 5.0]), nbranch=rng.choice([2, 8]), rel_temperature=rng.random() < 0.5)
        if rng.random() < 0.3:
            kw["cost_fn"] = "memory-removed"
        k = rng.randint(2, 7)
        a = rng.randint(1, k - 1)
        calls = []
        for ren in range(2):
            perm = list(range(1, NL + 1))
            if v or ren:
                vr.shuffle(perm)
            names = gen.names_for(vr, NL)
            S = [0] * NL
            for x in range(1, NL + 1):
                S[perm[x - 1] - 1] = sizes[x - 1]
            T = [[perm[x - 1] for x in t] for t in terms]
            O = [perm[x - 1] for x in out]
            mix = lambda t: frozenset(vr.sample([names[x - 1] for x in t], len(t)))

            def contraction():
                items = [(names[i], S[i]) for i in range(NL)]
                vr.shuffle(items)
                return [mix(t) for t in T], mix(O), dict(items)

            def answer(p):
                return [list(map(str, map(int, p.costs))), list(map(str, map(int, p.sizes))), norm_path(p.path)]

            def whole():
                p = oe.RandomGreedy(max_repeats=k, **kw)
                p(*contraction())
                return answer(p)

            def split():
                p = oe.RandomGreedy(max_repeats=a, **kw)
                p(*contraction())
                p.max_repeats = k - a
                random.seed(vr.random())
                p(*contraction())
                return answer(p)
            for f in (whole, split) if ren else (whole, split, whole):
                ctx.doing((T, O, S, kw))
                r = ctx.call(f)
                calls.append({"finder": "random", "limit": "None", "terms": T, "out": O, "sizes": S,
                              "ans": {"k": r[0], "p": r[1] if r[0] == "ok" else [], "e": "" if r[0] == "ok" else r[1]}})
        ctx.emit({"calls": calls, "distinct": 1}, {"eq": gen.eq_of(terms, out, gen.LETTERS + "".join(gen.UNI)), "sizes": sizes, "options": kw, "trials": k, "id": "%d/%d" % (ctx.shard, it), "hashseed": v})


def across(c, part):
    """one history per contraction, from the processes with different hash seeds"""
    runs = [c.record(part, variant=v, hashseed=h) for v, h in enumerate(SEEDS)]
    by = [{r["meta"]["id"]: r for r in run} for run in runs]
    recs = []
    for k, r in by[0].items():
        calls, seeds = list(r["case"]["calls"]), [0]
        for v in range(1, len(SEEDS)):
            if k in by[v]:
                calls += by[v][k]["case"]["calls"]
                seeds.append(SEEDS[v])
        recs.append({"case": {"calls": calls, "distinct": r["case"]["distinct"]}, "meta": dict(r["meta"], hashseed=seeds)})
    return recs


def plan(c):
    c.model("MC_Determ", c.pick("MC_Determ2.cfg", "MC_Determ.cfg"))
    per = lambda rs: sum(len(r["case"]["calls"]) + 2 for r in rs)
    c.judge("T_Determ", across(c, "main"), states_per=per, name="deterministic finders under %d hash seeds" % len(SEEDS))
    c.judge("T_Determ", across(c, "random"), states_per=per, name="random trials under %d hash seeds" % len(SEEDS))
    c.assumptions.append("random optimizers: without an executor (C09 compares with one)")
