"""C02: every path finder returns a complete, well-formed path."""
import json
from vlib import gen
from vlib.finders import finders, norm_path, may_fail


def emit(ctx, n, name, r, limit, eqs, sizes):
    case = {"n": n, "path": [], "pairwise": limit in (None, -1), "k": "path", "e": "", "mayfail": False}
    if r[0] == "ok":
        p = norm_path(r[1])
        if p is None:
            case["k"] = "malformed"
        else:
            case["path"] = p
    else:
        case.update(k="error", e=r[1], mayfail=may_fail(name, limit, r[1]))
    ctx.emit(case, {"eq": eqs, "sizes": sizes, "finder": name, "limit": limit, "result": str(r[1])[:300]})


def one(ctx, oe, rng, terms, out, sizes, names, k, shapes=None):
    n = len(terms)
    inputs = [frozenset(names[x - 1] for x in t) for t in terms]
    output = frozenset(names[x - 1] for x in out)
    sd = {names[x - 1]: s for x, s in sizes.items()}
    eqs = gen.eq_of(terms, out, names)
    fs = finders(oe, rng, n, dense=len(sizes) > 1.5 * n)
    mx = max([gen.prod(sizes[x] for x in set(t)) for t in terms] + [1])
    for name, f in rng.sample(fs, min(k, len(fs))):
        limit = rng.choice([None, None, None, -1, 1, mx, 2 * mx, 3])
        if limit == -1 and "DP" not in name and "dp" not in name and rng.random() < 0.5:
            limit = None
        if limit == -1:
            limit = None     # -1 is a value of the public functions, finders receive None
        ins = [set(i) for i in inputs] if rng.random() < 0.3 else list(inputs)
        ctx.doing((eqs, sizes, name, limit))
        r = ctx.call(lambda: f(ins, set(output) if rng.random() < 0.3 else output, dict(sd), limit), 60)
        emit(ctx, n, name, r, limit, eqs, sd)
    # through the public entry point
    sh = [tuple(sizes[x] for x in t) for t in terms]
    for name in rng.sample(["auto", "greedy", "random-greedy", "branch-1"] + (["dp", "auto-hq", "branch-2"] if n <= 9 else []) + (["optimal", "branch-all"] if n <= 6 else []), 2):
        lim = rng.choice([None, None, -1, "max_input", 5])
        ctx.doing((eqs, sh, name, lim))
        r = ctx.call(lambda: oe.contract_path(eqs, *sh, shapes=True, optimize=name, memory_limit=lim)[0], 60)
        emit(ctx, n, "contract_path:" + name, r if r[0] == "ok" else r, None if lim is None else (lim if lim != -1 else -1), eqs, sd) if not (
            r[0] == "err" and may_fail(name, lim, r[1])) else emit(ctx, n, name, r, lim, eqs, sd)


def rec_main(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(6000, 30000))):
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11])
        kind = rng.choice(["random", "graph", "chain", "batch", "split", "star", "equal", "scalars", "lone"])
        if kind == "equal":
            base, out, L = gen.network(rng, rng.randint(1, 2), 3, max_rank=3, kind="random")
            terms = [list(rng.choice(base)) for _ in range(n)]
            used = sorted({x for t in terms for x in t})
            m = {x: i + 1 for i, x in enumerate(used)}
            terms = [[m[x] for x in t] for t in terms]
            out = [m[x] for x in out if x in m]
            L = len(m)
        elif kind == "scalars":
            terms, out, L = gen.network(rng, n, rng.randint(1, 4), max_rank=2, kind="random", p_scalar=0.5)
        elif kind == "lone":
            terms, out, L = gen.network(rng, n, rng.randint(n, 2 * n), max_rank=3, kind="graph", p_out=0.7)
        else:
            terms, out, L = gen.network(rng, n, rng.randint(1, max(2, int(1.6 * n))), max_rank=4, kind=kind, p_dup=rng.choice([0, 0, 0.3]), p_repeat=rng.choice([0, 0, 0.2]))
        pool = rng.choice([[2], [2, 3, 4], [1, 2, 5], [2, 10, 100], [0, 2, 3], [10 ** 6, 7, 2], [3, 3, 3, 50], [10 ** 20], [10 ** 60, 10 ** 70], [10 ** 150, 10 ** 160, 10 ** 150 + 1]])
        sizes = {x: rng.choice(pool) for x in range(1, L + 1)}
        one(ctx, oe, rng, terms, out, sizes, gen.names_for(rng, L), 5)


def rec_big(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(400, 2500))):
        n = rng.choice([13, 14, 15, 16, 17, 18, 20, 25, 30, 40, 60])
        terms, out, L = gen.network(rng, n, rng.randint(n // 2, int(1.4 * n)), max_rank=4, p_dup=rng.choice([0, 0.2]), kind=rng.choice(["graph", "random", "chain", "split", "batch"]), p_out=0.1)
        pool = rng.choice([[2, 3, 4, 20], [2, 3, 4, 20], [10 ** 9], [10 ** 40, 10 ** 41]])
        sizes = {x: rng.choice(pool) for x in range(1, L + 1)}
        one(ctx, oe, rng, terms, out, sizes, gen.names_for(rng, L, "mixed"), 3)


def rec_exhaust(ctx):
    """every index structure of three operands over at most three labels, a sample of the finders each"""
    import itertools, random
    import opt_einsum as oe
    rng = ctx.rng
    subsets = [c for k in range(0, 4) for c in itertools.combinations((1, 2, 3), k)]
    insts = []
    for t in itertools.combinations_with_replacement(subsets, 3):
        used = sorted({x for s in t for x in s})
        for k in range(len(used) + 1):
            for o in itertools.combinations(used, k):
                insts.append((t, o, used))
    random.Random(ctx.seed).shuffle(insts)
    for t, o, used in ctx.mine(insts[: ctx.pick(4000, 10 ** 9)]):
        m = {x: i + 1 for i, x in enumerate(used)}
        terms = [[m[x] for x in s] for s in t]
        order = list(range(3))
        rng.shuffle(order)
        terms = [terms[i] for i in order]
        sizes = {i: rng.choice([2, 3, 5]) for i in m.values()}
        one(ctx, oe, rng, terms, [m[x] for x in o], sizes, gen.names_for(rng, len(m), "seq"), 4)


def plan(c):
    c.model("MC_Path", c.pick("MC_Path.cfg", "MC_Path5.cfg"), expect_min=600)
    recs = c.record("exhaust") + c.record("main") + c.record("big")
    c.judge("T_Path", recs, states_per=lambda rs: sum(2 if r["case"]["k"] != "path" else len(r["case"]["path"]) + 2 for r in rs))
