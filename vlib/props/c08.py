"""C08: reused optimizer objects."""
import json
from vlib import gen, randomized as R
from vlib.finders import norm_path
from vlib.props.c03 import big


def rec_spec(ctx):
    """histories enumerated by TLC, run serially"""
    import opt_einsum as oe
    rng = ctx.rng
    for line in ctx.mine(open(ctx.params["file"])):
        h = json.loads(line)
        n = sum(c["rep"] for c in h["calls"]) + 2
        script = R.pad_script(rng, [(o["f"], o["s"]) for o in h["script"]], n)
        calls = [dict(c, par=False, pre=1) for c in h["calls"]]
        log = R.play(ctx, oe, rng, h["min"], script, calls, via=rng.choice(["direct", "contract_path"]))
        R.emit(ctx, log, h["min"], {"calls": calls})


def rec_rand(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(600, 5000))):
        reps = rng.choice([[1, 1, 2, 3, 5, 8]] * 7 + [[1, 20, 33]])
        calls = [{"foreign": rng.random() < 0.2 and i > 0, "rep": rng.choice(reps), "par": False, "pre": 1, "stop": 0, "long": rng.random() < 0.2} for i in range(rng.randint(2, 7) if len(reps) > 3 else rng.randint(2, 4))]
        if rng.random() < 0.3:
            calls[rng.randrange(len(calls))]["stop"] = 1
        if rng.random() < 0.3:
            x = rng.choice(calls)
            x.update(fail=True, stop=rng.randrange(x["rep"]))
        n = sum(c["rep"] for c in calls) + 2
        pool = rng.choice([[1, 2], [1, 2, 3, 4, 5], list(range(1, 100))])
        script = [(rng.choice(pool), rng.choice(pool), p) for p in rng.sample(range(len(R.LIN)), n)]
        mn = rng.choice(["flops", "size"])
        log = R.play(ctx, oe, rng, mn, script, calls, via=rng.choice(["direct", "contract_path"]))
        R.emit(ctx, log, mn, {"calls": calls})


def score(x):
    """infinity (nothing found) is no number of the specification"""
    return [-1] if x == float("inf") else big(x)


def rec_real(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(900, 6000))):
        n = rng.choice([3, 4, 5, 6, 7, 8, 10])
        terms, out, L = gen.network(rng, n, rng.randint(2, int(1.6 * n)), max_rank=4, p_dup=rng.choice([0, 0.2]))
        if not L:
            continue
        sizes = {x: rng.choice([2, 3, 5, 10, 40]) for x in range(1, L + 1)}
        names = gen.names_for(rng, L)
        ins = [frozenset(names[x - 1] for x in t) for t in terms]
        o = frozenset(names[x - 1] for x in out)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        mn = rng.choice(["flops", "size"])
        rand = n > 6 or rng.random() < 0.6
        ref = None
        if rand:
            kw = {}
            if rng.random() < 0.4:
                kw["cost_fn"] = "memory-removed"
                ref = norm_path(paths.greedy(ins, o, sd))
            opt = oe.RandomGreedy(minimize=mn, temperature=rng.choice([0, 0.3, 1, 5]), nbranch=rng.choice([1, 2, 8]), **kw)
        else:
            opt = oe.BranchBound(minimize=mn, nbranch=rng.choice([1, 2, None]), cutoff_flops_factor=rng.choice([1, 4, 100]))
        calls = []
        # limits around the sizes that occur, for an object as a whole or call by call
        pool = sorted({gen.prod(sizes[x] for x in set(t)) for t in terms} | {gen.prod(sizes[x] for x in out)})
        limits = None
        if not rand and rng.random() < 0.5:
            limits = [rng.choice(pool) * rng.choice([1, 1, 2, 5])] * 4 if rng.random() < 0.5 else [rng.choice(pool) * rng.choice([1, 1, 2, 5]) for _ in range(3)] + [None]
        own = rng.random() < 0.3
        mine = ([set(x) for x in ins], set(o), dict(sd))
        for j in range(rng.randint(2, 4)):
            foreign = j > 0 and rng.random() < 0.25
            rep = rng.choice([1, 2, 4, 9])
            if rand:
                opt.max_repeats = rep
                opt.temperature = rng.choice([0, 0.3, 1, 5])
                opt.nbranch = rng.choice([1, 2, 8])
            elif not foreign:
                opt.nbranch = rng.choice([1, 2, None]) if n <= 6 else 1
                opt.cutoff_flops_factor = rng.choice([1, 4, 100])
            a, b, s = ins, o, dict(sd)
            undo = None
            if own:                              # the caller's own list, sets and dictionary, in every call
                a, b, s = mine
                if foreign:
                    how = rng.choice(["size", "out", "inputs"])
                    if how == "size":
                        k = rng.choice(sorted(s))
                        s[k] += 1
                        undo = lambda k=k: s.__setitem__(k, s[k] - 1)
                    else:
                        t, x = (b if how == "out" else rng.choice(a)), rng.choice(names)
                        t ^= {x}
                        undo = lambda t=t, x=x: t.symmetric_difference_update({x})
            elif foreign:
                how = rng.choice(["size", "out", "inputs", "order"])
                if how == "order":               # the same operands in another order
                    a = sorted(ins, key=sorted)
                    if a == ins:
                        a = a[::-1]
                    if a == ins:
                        how = "size"
                if how == "size":
                    k = rng.choice(sorted(s))
                    s[k] += 1
                elif how == "out":
                    x = rng.choice(names)
                    b = b ^ {x}
                elif how == "inputs":
                    i = rng.randrange(n)
                    x = rng.choice(names)
                    a = a[:i] + [a[i] ^ {x}] + a[i + 1:]
            ctx.doing((gen.eq_of(terms, out, names), sd))
            lim = rng.choice(limits) if limits else None
            r = ctx.call(lambda: opt(a, b, s, lim) if limits else opt(a, b, s), 60)
            if undo:
                undo()
            e = {"foreign": foreign, "e": r[1] if r[0] == "err" else ("none" if foreign else ""), "rep": rep, "ret": (norm_path(r[1]) or []) if r[0] == "ok" else []}
            try:
                e.update(costs=[big(x) for x in opt.costs] if rand else [], sizes=[big(x) for x in opt.sizes] if rand else [],
                         bf=score(opt.best["flops"]), bs=score(opt.best["size"]), path=norm_path(opt.path))
            except Exception as ex:
                e.update(costs=[], sizes=[], bf=[], bs=[], path=[], e=e["e"] or type(ex).__name__)
            calls.append(e)
        case = {"terms": terms, "out": out, "sizes": [sizes[x] for x in range(1, L + 1)], "min": mn, "random": rand, "limited": bool(limits), "calls": calls, "hasref": ref is not None, "ref": ref or []}
        ctx.emit(case, {"eq": gen.eq_of(terms, out, names), "sizes": sd, "optimizer": "RandomGreedy" if rand else "BranchBound", "minimize": mn, "limits": limits, "arguments changed in place": own, "calls": [(c["foreign"], c["e"], c["rep"]) for c in calls]})


def plan(c):
    r = c.model("MC_RandomSearch", c.pick("MC_RandomSearch.cfg", "MC_RandomSearch3.cfg"), expect_min=300000)
    f = c.emitted(r, c.pick(3000, 20000))
    recs = c.record("spec", file=f) + c.record("rand")
    c.judge("T_Random", recs, states_per=lambda rs: sum(len(x["case"]["evs"]) + 2 for x in rs))
    recs = c.record("real")
    c.judge("T_Hist", recs, states_per=lambda rs: sum(len(x["case"]["calls"]) + 2 for x in rs))
