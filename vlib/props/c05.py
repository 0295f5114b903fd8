"""C05: dynamic programming minimises its objective over the trees it may use."""
from vlib import gen
from vlib.props.c04 import run, pick_net, POOLS


def one(ctx, oe, rng, terms, out, sizes, L, names, outer=None):
    from opt_einsum import paths
    n = len(terms)
    ins = [frozenset(names[x - 1] for x in t) for t in terms]
    o = frozenset(names[x - 1] for x in out)
    sd = {names[x - 1]: s for x, s in sizes.items()}
    obj = rng.choice(["flops", "flops", "size", "write", "combo", "limit"])
    alpha = 64
    minimize = obj
    if obj in ("combo", "limit") and rng.random() < 0.7:
        alpha = rng.choice([0, 1, 2, 5, 100, 1000])
        minimize = obj + rng.choice(["-", ""]) + str(alpha)
    if outer is None:
        outer = rng.random() < 0.35 and n <= 6
    lim = None
    if rng.random() < 0.35:
        mx = max([gen.prod(sizes[x] for x in set(t)) for t in terms] + [1])
        lim = rng.choice([1, 2, 6, mx, mx, 2 * mx, max(1, mx // 2)])
    cap = rng.choice([True, True, False, 0, 1, 10, 10 ** 6])
    name = "DP(%s,outer=%s,cap=%s)" % (minimize, outer, cap)
    f = lambda: oe.DynamicProgramming(minimize=minimize, search_outer=outer, cost_cap=cap)(ins, o, dict(sd), lim)
    r = rng.random()
    if minimize == "flops" and not outer and r < 0.5:
        if n > 2 and r < 0.25:
            eq = gen.eq_of(terms, out, names)
            name = "contract_path(dp)"
            f = lambda: oe.contract_path(eq, *[tuple(sizes[x] for x in t) for t in terms], shapes=True, optimize="dp", memory_limit=lim)[0]
        else:
            name = "dp"
            f = lambda: paths.get_path_fn("dynamic-programming")(ins, o, sd, lim)
    run(ctx, name, f, terms, out, sizes, L, names, obj, alpha=alpha, outer=outer, lim=lim)


def rec_main(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(12000, 60000))):
        n = rng.choice([2, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6])
        terms, out, L = pick_net(rng, n, rng.choice([0.8, 1.3, 1.7]))
        sizes = {x: rng.choice(p) for p in [rng.choice(POOLS)] for x in range(1, L + 1)}
        one(ctx, oe, rng, terms, out, sizes, L, gen.names_for(rng, L))


def dumbbell(rng, n):
    """two dense clusters joined by thin bonds: the best tree closes each cluster first, and the last step joins two large halves"""
    a = rng.randint(3, n - 3)
    parts = [list(range(a)), list(range(a, n))]
    terms, sizes, L = [[] for _ in range(n)], {}, 0

    def bond(i, j, s):
        nonlocal L
        L += 1
        sizes[L] = s
        for t in {i, j}:
            terms[t].append(L)
    for p in parts:
        thick = rng.choice([[4, 5, 9], [3, 3, 3], [7, 8], [2, 3, 5]])
        for i, j in zip(p, p[1:]):
            bond(i, j, rng.choice(thick))
        if len(p) > 2 and rng.random() < 0.8:
            bond(p[0], p[-1], rng.choice(thick))
        if len(p) > 3 and rng.random() < 0.4:
            bond(p[0], p[2], rng.choice(thick))
    for _ in range(rng.choice([1, 1, 2])):
        bond(rng.choice(parts[0]), rng.choice(parts[1]), 2)
    order = list(range(n))
    rng.shuffle(order)
    out = [x for x in range(1, L + 1) if rng.random() < 0.08]
    return [terms[i] for i in order], out, L, sizes


def rec_large(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(200, 1600))):
        n = rng.choice([7, 7, 8, 8])
        terms, out, L = gen.network(rng, n, rng.randint(n - 1, n + 2), max_rank=3, kind=rng.choice(["graph", "chain", "split", "star"]), p_out=0.15)
        sizes = {x: rng.choice([2, 3, 4, 9]) for x in range(1, L + 1)}
        if rng.random() < 0.5:
            terms, out, L, sizes = dumbbell(rng, n)
        if rng.random() < 0.4:                   # labels of one operand only, to be summed first
            for _ in range(rng.randint(1, 6)):
                L += 1
                sizes[L] = rng.choice([2, 3])
                t = rng.choice(terms)
                t.insert(rng.randint(0, len(t)), L)
        one(ctx, oe, rng, terms, out, sizes, L, gen.names_for(rng, L), False)


def levels(case):
    """number of table levels TLC builds: size of the largest problem"""
    terms, out = [set(t) for t in case["terms"]], set(case["out"])
    n = len(terms)
    done = []
    for i, t in enumerate(terms):
        rest = out.union(*[terms[j] for j in range(n) if j != i])
        done.append(bool(t) and not (t & rest))
    if case["obj"] == "pair":
        return n
    if case["outer"]:
        return n - sum(done)
    best, seen = 0, set()
    for i in range(n):
        if i in seen:
            continue
        g, q = {i}, [i]
        while q:
            a = q.pop()
            for j in range(n):
                if j not in g and (terms[a] & terms[j]) - out:
                    g.add(j)
                    q.append(j)
        seen |= g
        if not any(done[j] for j in g):
            best = max(best, len(g))
    return best


def plan(c):
    c.model("MC_Search", c.pick("MC_Search.cfg", "MC_Search4.cfg"), expect_min=20000)
    recs = c.record("main") + c.record("large")
    c.judge("T_Search", recs, states_per=lambda rs: sum(levels(r["case"]) + 2 for r in rs))
