"""C27: random greedy trials draw from the cheapest pairs as the settings say."""
from vlib import gen
from vlib.finders import norm_path

BASE = {"e": "", "path": [], "greedy": [], "plain": False, "first": False, "zero": False, "firsts": [], "n": 0, "num": 1, "den": 1, "rel": True}


class Exec:
    """an executor that runs each job at once and remembers what came out, in order of submission"""

    def __init__(self):
        self.res = []

    def submit(self, fn, *a, **k):
        ex = self

        class F:
            def __init__(self):
                self.v = fn(*a, **k)
                ex.res.append(self.v)

            def result(self, timeout=None):
                return self.v

            def cancel(self):
                return False

            def done(self):
                return True

            def running(self):
                return False

            def cancelled(self):
                return False
        return F()

    def shutdown(self, *a, **k):
        pass


def cost_linear31(s12, s1, s2, k12, k1, k2):
    return 3 * s12 - (s1 + s2)


def cost_largest(s12, s1, s2, k12, k1, k2):
    return 2 * s12 - max(s1, s2)


def cost_result(s12, s1, s2, k12, k1, k2):
    return s12


def cost_fine(s12, s1, s2, k12, k1, k2):
    return (s12 - s1 - s2) / 1048576      # exact: the order of memory-removed on a fine scale


FNS = [("memory-removed", {"k": "linear", "a": 1, "b": 1}), ("memory-removed", {"k": "linear", "a": 1, "b": 1}), ("memory-removed", {"k": "linear", "a": 1, "b": 1}),
       (cost_fine, {"k": "linear", "a": 1, "b": 1}), (cost_linear31, {"k": "linear", "a": 3, "b": 1}), (cost_largest, {"k": "largest"}), (cost_result, {"k": "result"})]


def pick_sizes(rng, NL, cap):
    pool = rng.choice([[2], [2, 3], [2, 3, 4, 5], [2, 5, 9], [1, 2, 3]])
    while True:
        sizes = [rng.choice(pool) for _ in range(NL)]
        if gen.prod(sizes) < cap:
            return sizes
        pool = [1, 2, 2] if min(pool) > 1 else [1, 1, 2]


def rec_trials(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    for it in range(ctx.share(ctx.pick(1800, 12000))):
        n = rng.choice([3, 3, 4, 4, 5, 6, 7, 8, 10])
        terms, out, NL = gen.network(rng, n, rng.randint(max(1, n // 2), 2 + n + n // 2), max_rank=4, p_repeat=0.05, p_dup=rng.choice([0, 0.2]), p_out=rng.choice([0.05, 0.2, 0.5]))
        sizes = pick_sizes(rng, NL, 2 ** 24)
        names = gen.names_for(rng, max(1, NL))
        sd = {names[i]: sizes[i] for i in range(NL)}
        sets = [frozenset(names[x - 1] for x in t) for t in terms]
        oset = frozenset(names[x - 1] for x in out)
        fn, f = rng.choice(FNS)
        kw, ex = {"cost_fn": fn}, Exec()
        T, rel, nb = 1.0, True, 8
        if rng.random() < 0.7:
            T = kw["temperature"] = rng.choice([0, 0.0, 0.01, 0.5, 1.0, 100.0, 1e4])
        if rng.random() < 0.4:
            rel = kw["rel_temperature"] = rng.random() < 0.5
        if rng.random() < 0.7:
            nb = kw["nbranch"] = rng.choice([1, 2, 2, 3, 4, 6])
        ctx.doing((terms, out, sizes, kw))
        opt = oe.RandomGreedy(max_repeats=rng.choice([1, 6, 12, 24]), minimize=rng.choice(["flops", "size"]), parallel=ex, **kw)
        rg = ctx.call(lambda: norm_path(paths.greedy(sets, oset, sd, cost_fn=fn)))
        seen, total, said = set(), 0, []
        for seg in range(rng.choice([1, 1, 2])):
            if seg:      # settings are changed between two runs
                T, nb = rng.choice([0.0, 1.0, 1e4]), rng.choice([1, 2, 3, 8])
                opt.temperature, opt.nbranch = T, nb
            ex.res = []
            r = ctx.call(lambda: opt(sets, oset, sd))
            said.append((T, rel, nb))
            base = dict(BASE, k="trial", terms=terms, out=out, sizes=sizes, f=f, nbranch=nb, zero=(T == 0))
            meta = {"terms": terms, "out": out, "sizes": sizes, "cost": getattr(fn, "__name__", fn), "settings": list(said)}
            if r[0] == "err":
                ctx.emit(dict(base, e=r[1]), dict(meta, error=r[2]))
                break
            if seg == 0 and not ex.res and n > 2:
                ctx.emit(dict(base, e="NoTrials"), meta)
            for q, v in enumerate(ex.res):
                r2 = ctx.call(lambda: norm_path(paths.ssa_to_linear(v[0])))
                if r2[0] == "err" or r2[1] is None:
                    ctx.emit(dict(base, e="NotAPath"), dict(meta, trial=total))
                else:
                    first = total == 0 and rg[0] == "ok"
                    key = (str(r2[1]), nb, T == 0)
                    if first or key not in seen:
                        ctx.emit(dict(base, path=r2[1], plain=(nb == 1 or total == 0), first=first, greedy=rg[1] if first else []), dict(meta, trial=total, path=str(r2[1])))
                    if not first:
                        seen.add(key)
                total += 1


def sparse_network(rng):
    """operands no two of which share more than one label, nor are equal"""
    while True:
        kind = rng.choice(["chain", "ring", "star", "grid", "hyper"])
        if kind == "grid":
            edges, n = [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)], 6
        else:
            n = rng.randint(4, 7) if rng.random() < 0.7 else rng.randint(8, 10)
            if kind == "chain":
                edges = [(i, i + 1) for i in range(n - 1)]
            elif kind == "ring":
                edges = [(i, (i + 1) % n) for i in range(n)]
            elif kind == "star":
                edges = [(0, i) for i in range(1, n)]
            else:
                edges = [(0, 1, 2), (2, 3)] + [(3, i) for i in range(4, n)]
        terms = [[] for _ in range(n)]
        out, L = [], 0
        for e in edges:
            L += 1
            for i in e:
                terms[i].append(L)
        for i in range(n):
            for _ in range(rng.choice([0, 1, 1, 2])):
                L += 1
                terms[i].append(L)
                if rng.random() < 0.6:
                    out.append(L)
        if len({frozenset(t) for t in terms}) == n and all(terms):
            return terms, out, L


def rec_freq(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    N = 1500
    done = 0
    want = ctx.share(ctx.pick(96, 900))
    while done < want:
        terms, out, NL = sparse_network(rng)
        sizes = [rng.choice(rng.choice([[2, 3], [2, 3, 4, 5], [1, 2, 4, 8], [5, 6, 7]])) for _ in range(NL)]
        if len(terms) > 7 and rng.random() < 0.7:
            sizes = [2] * NL
        if max(gen.prod(sizes[x - 1] for x in t) for t in terms) > 3000:
            continue
        done += 1
        fn, f = rng.choice([x for x in FNS if x[0] is not cost_fine])
        kw = {"cost_fn": fn}
        num, den, rel, nb = 1, 1, True, 8
        if rng.random() < 0.65:
            num, den = rng.choice([(0, 1), (1, 1), (1, 2), (1, 10), (3, 1), (30, 1), (100, 1)])
            kw["temperature"] = num / den
        if rng.random() < 0.4:
            rel = kw["rel_temperature"] = rng.random() < 0.4
        if rng.random() < 0.5:
            nb = kw["nbranch"] = rng.choice([2, 3, 4, 5, 20])
        names = gen.names_for(rng, NL)
        sd = {names[i]: sizes[i] for i in range(NL)}
        sets = [frozenset(names[x - 1] for x in t) for t in terms]
        oset = frozenset(names[x - 1] for x in out)
        ex = Exec()
        ctx.doing((terms, out, sizes, kw))
        opt = oe.RandomGreedy(max_repeats=N + 1, parallel=ex, **kw)
        r = ctx.call(lambda: opt(sets, oset, sd))
        case = dict(BASE, k="freq", terms=terms, out=out, sizes=sizes, f=f, nbranch=nb, num=num, den=den, rel=rel, n=0)
        hits = {}
        if r[0] == "err":
            case["e"] = r[1]
        else:
            for v in ex.res[1:]:
                p = tuple(sorted(int(i) for i in v[0][0]))
                hits[p] = hits.get(p, 0) + 1
            case["firsts"] = [[a, b, k] for (a, b), k in sorted(hits.items())]
            case["n"] = sum(hits.values())
        ctx.emit(case, {"terms": terms, "out": out, "sizes": sizes, "cost": getattr(fn, "__name__", fn), "settings": {k: v for k, v in kw.items() if k != "cost_fn"}, "first choices": str(case["firsts"])})


def plan(c):
    c.model("MC_RandGreedy", expect_min=1000)
    c.refuted("MC_RandGreedy", "MC_RandGreedyBad.cfg", "NoPairAtSwitch")
    if not c.quick:
        c.model("MC_RandGreedy", "MC_RandGreedy4.cfg", expect_min=1000)
    c.judge("T_RandGreedy", c.record("trials"), name="paths of single trials", states_per=lambda rs: sum(len(r["case"]["path"]) + 2 for r in rs))
    c.judge("T_RandGreedy", c.record("freq"), name="frequencies of first choices", states_per=1)
    c.assumptions.append("frequencies are compared within a twelfth of the number of trials (more than six standard deviations), on networks in which no two operands share two labels")
