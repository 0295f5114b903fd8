"""C06: memory limits."""
from vlib import gen
from vlib.finders import finders, norm_path, may_fail
from vlib.props.c03 import big


def base(terms, out, sizes, L, kind):
    return {"k": kind, "terms": terms, "out": out, "sizes": [sizes[x] for x in range(1, L + 1)], "lim": [], "path": [], "path2": [], "e": "", "mayfail": False, "fresh": True,
            "sym": "", "hasgot": False, "got": []}


def net(rng, lo=3, hi=9):
    n = rng.randint(lo, hi)
    terms, out, L = gen.network(rng, n, rng.randint(1, max(2, int(1.6 * n))), max_rank=4, p_dup=rng.choice([0, 0.2]), p_repeat=rng.choice([0, 0, 0.15]), p_scalar=0.05)
    pool = rng.choice([[2], [2, 3, 4], [1, 2, 5], [2, 10, 100], [0, 2, 3], [10 ** 6, 7, 2], [3, 3, 3, 50]])
    sizes = {x: rng.choice(pool) for x in range(1, L + 1)}
    return n, terms, out, L, sizes


def put(case, r):
    if r[0] == "ok":
        p = norm_path(r[1])
        if p is None:
            case["e"] = "not-a-path"
        else:
            case["path"] = p
    else:
        case["e"] = r[1]
    return case


def rec_main(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(7000, 40000))):
        n, terms, out, L, sizes = net(rng)
        names = gen.names_for(rng, L)
        ins = [frozenset(names[x - 1] for x in t) for t in terms]
        o = frozenset(names[x - 1] for x in out)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        sh = [tuple(sizes[x] for x in t) for t in terms]
        eq = gen.eq_of(terms, out, names)
        mx = max([gen.prod(sizes[x] for x in set(t)) for t in terms] + [1])
        for name, f in rng.sample(finders(oe, rng, n, dense=L > 1.5 * n), 4):
            lim = rng.choice([1, 2, 3, 8, mx, mx, 2 * mx, 5 * mx, max(1, mx // 2), 10 ** 9])
            ctx.doing((name, eq, sizes, lim))
            r = ctx.call(lambda: f(list(ins), o, dict(sd), lim), 60)
            case = put(base(terms, out, sizes, L, "path"), r)
            case.update(lim=big(lim), mayfail=may_fail(name, lim, case["e"]))
            ctx.emit(case, {"finder": name, "eq": eq, "sizes": sd, "limit": lim, "result": str(r[1])[:200]})
        # through contract_path
        for _ in range(2):
            name = rng.choice(["auto", "greedy", "branch-1", "branch-2" if n <= 8 else "auto", "optimal" if n <= 6 else "greedy", "branch-all" if n <= 6 else "greedy", "dp", "auto-hq"])
            lim = rng.choice([1, 3, mx, 3 * mx, 7.9, "max_input"])
            ctx.doing((name, eq, sizes, lim))
            r = ctx.call(lambda: oe.contract_path(eq, *sh, shapes=True, optimize=name, memory_limit=lim)[0], 60)
            case = put(base(terms, out, sizes, L, "path"), r)
            num = max([gen.prod(sizes[x] for x in t) for t in terms] + [gen.prod(sizes[x] for x in out)]) if lim == "max_input" else int(lim)
            case.update(lim=big(num), mayfail=may_fail(name, lim, case["e"]))
            ctx.emit(case, {"finder": name, "eq": eq, "sizes": sd, "limit": lim, "result": str(r[1])[:200]})
        # synonyms for no limit
        if n <= 8:
            name = rng.choice(["auto", "greedy", "branch-1", "branch-2", "dp", "auto-hq"] + (["optimal", "branch-all"] if n <= 6 else []))
            r0 = ctx.call(lambda: oe.contract_path(eq, *sh, shapes=True, optimize=name)[0], 60)
            syn = rng.choice([None, -1, 10 ** 18 if all(sizes.values()) and gen.prod(sizes.values()) < 10 ** 17 and name not in ("greedy", "auto") else -1])
            r1 = ctx.call(lambda: oe.contract_path(eq, *sh, shapes=True, optimize=name, memory_limit=syn)[0], 60)
            case = put(base(terms, out, sizes, L, "same"), r0)
            c1 = put(base(terms, out, sizes, L, "same"), r1)
            case.update(path2=c1["path"], e=case["e"] or c1["e"])
            ctx.emit(case, {"finder": name, "eq": eq, "sizes": sd, "limit": str(syn), "same": [str(r0[1])[:100], str(r1[1])[:100]]})


def rec_args(ctx):
    """what the path finder is given, and which limits are refused"""
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    got = []

    class Capture(paths.PathOptimizer):
        def __call__(self, inputs, output, size_dict, memory_limit=None):
            got.append(memory_limit)
            return [tuple(range(len(inputs)))]

    for i in range(ctx.share(ctx.pick(4000, 24000))):
        n, terms, out, L, sizes = net(rng, 3, 6)
        names = gen.names_for(rng, L)
        eq = gen.eq_of(terms, out, names)
        # broadcast some positions
        sh = [tuple(1 if (t.count(x) == 1 and sum(x in u for u in terms) > 1 and rng.random() < 0.15) else sizes[x] for x in t) for t in terms]
        for x in sizes:
            dims = {d for t, s in zip(terms, sh) for y, d in zip(t, s) if y == x}
            sizes[x] = next((d for d in dims if d != 1), 1)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        sym, arg = rng.choice([("max_input", "max_input"), ("max_input", "max_input"), ("none", None), ("none", -1), ("num", rng.choice([1, 2, 17, 10 ** 7, 10 ** 15])), ("num", rng.choice([1.5, 12.0]))])
        del got[:]
        r = ctx.call(lambda: oe.contract_path(eq, *sh, shapes=True, optimize=Capture(), memory_limit=arg))
        case = base(terms, out, sizes, L, "arg")
        case.update(sym=sym, e="" if r[0] == "ok" else r[1])
        if sym == "num":
            case["lim"] = big(int(arg))
        if r[0] == "ok":
            if len(got) != 1:
                case["e"] = "finder called %d times" % len(got)
            elif got[0] is not None:
                case.update(hasgot=True, got=big(got[0]))
        ctx.emit(case, {"eq": eq, "sizes": sd, "limit": str(arg), "received": [str(g) for g in got]})
        if i % 3 == 0:
            bad = rng.choice([0, -2, -100, 0.5, -0.5, "max_output", "", "MAX_INPUT", "3"])
            opt = rng.choice(["auto", "greedy", Capture(), [tuple(range(n))], False])
            fn = rng.choice(["path", "contract", "expression"])
            if fn == "path":
                call = lambda: oe.contract_path(eq, *sh, shapes=True, optimize=opt, memory_limit=bad)
            elif fn == "expression":
                call = lambda: oe.contract_expression(eq, *sh, optimize=opt if opt is not False else "auto", memory_limit=bad)
            else:
                import numpy as np
                if gen.prod(max(1, d) for s in sh for d in s) > 10 ** 4:
                    continue
                opt = opt if opt is not False else "auto"
                call = lambda: oe.contract(eq, *[np.ones(s) for s in sh], optimize=opt, memory_limit=bad)
            r = ctx.call(call)
            case = base(terms, out, sizes, L, "reject")
            case["e"] = "" if r[0] == "ok" else r[1]
            ctx.emit(case, {"eq": eq, "limit": repr(bad), "function": fn, "outcome": str(r)[:200]})


def rec_reuse(ctx):
    """one BranchBound object, limits loosened and tightened between calls"""
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(1000, 5000))):
        n, terms, out, L, sizes = net(rng, 3, 6)
        names = gen.names_for(rng, L)
        ins = [frozenset(names[x - 1] for x in t) for t in terms]
        o = frozenset(names[x - 1] for x in out)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        mx = max([gen.prod(sizes[x] for x in set(t)) for t in terms] + [1])
        lims = [rng.choice([1, 3, mx, 2 * mx, 9 * mx]) for _ in range(3)]
        opt = oe.BranchBound(nbranch=rng.choice([1, 2, None]))
        for j, lim in enumerate(lims):
            r = ctx.call(lambda: opt(ins, o, sd, lim), 60)
            case = put(base(terms, out, sizes, L, "path"), r)
            case.update(lim=big(lim), fresh=False)
            tight = j > 0 and lim < max(lims[:j])
            ctx.emit(case, {"finder": "BranchBound-reused-tighter" if tight else "BranchBound-reused", "eq": gen.eq_of(terms, out, names), "sizes": sd, "limits": lims[: j + 1], "result": str(r[1])[:200]})


def known_key(rec, clause):
    f = (rec["meta"] or {}).get("finder", "")
    n = len(rec["case"]["terms"])
    if f.startswith("contract_path:"):
        f = f.split(":")[1]
    if f.startswith("RandomGreedy") or f.startswith("random-greedy") or (f == "auto-hq" and n >= 17):
        fam = "random-greedy"
    elif f.startswith("DP") or f in ("dp", "dynamic-programming") or (f == "auto-hq" and 6 <= n <= 16):
        fam = "dp"
    else:
        fam = f or "-"
    return clause + "|" + fam


def plan(c):
    c.model("MC_Limit", c.pick("MC_Limit.cfg", "MC_Limit4.cfg"), expect_min=10000)
    recs = c.record("main") + c.record("args") + c.record("reuse")

    def expected(rs):
        return None
    c.judge("T_Limit", recs, known_key=known_key)
