"""C01: contract computes the Einstein summation."""
from vlib import gen

P = 46337


def _np_to_case(np, res, ring):
    a = np.asarray(res)
    if a.dtype == object:
        return None
    flat = a.reshape(-1).tolist()
    data = []
    for v in flat:
        if ring == "gauss":
            v = complex(v)
            if v.real != int(v.real) or v.imag != int(v.imag):
                return None
            data.append([int(v.real) % P, int(v.imag) % P])
        else:
            if isinstance(v, complex):
                if v.imag != 0:
                    return None
                v = v.real
            if v != v or v in (float("inf"), float("-inf")) or v != int(v):
                return None
            data.append(int(v) % P)
    return {"shape": [int(d) for d in a.shape], "data": data}


def tensors_case(np, terms, arrays, ring):
    ts = []
    for t, a in zip(terms, arrays):
        c = _np_to_case(np, a, ring)
        ts.append({"labels": list(t), "shape": c["shape"], "data": c["data"]})
    return ts


def make_arrays(np, rng, terms, sizes, dtype, p_bcast, layout=True):
    arrays = []
    for t in terms:
        rep = set(x for x in t if t.count(x) > 1)
        shape = [1 if (x not in rep and rng.random() < p_bcast) else sizes[x] for x in t]
        n = gen.prod(shape)
        vals = [rng.choice([-2, -1, 0, 1, 1, 2, 3]) for _ in range(n)]
        if dtype == "c":
            a = np.array([complex(v, rng.choice([-1, 0, 1, 2])) for v in vals], dtype=complex).reshape(shape)
        else:
            a = np.array(vals, dtype={"f": float, "i": np.int64}[dtype]).reshape(shape)
        if layout and a.ndim > 1 and rng.random() < 0.3:
            perm = list(range(a.ndim))
            rng.shuffle(perm)
            inv = [perm.index(k) for k in range(a.ndim)]
            a = np.ascontiguousarray(a.transpose(perm)).transpose(inv)
        arrays.append(a)
    return arrays


NAMED = ["auto", "auto-hq", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp", "dynamic-programming",
         "random-greedy", "AUTO", "Greedy"]


def configs(oe, rng, n, k):
    cfgs = [("True", True), ("False", False)]
    pool = list(NAMED)
    if n <= 6:
        pool += ["optimal", "optimal"]
    if n <= 5:
        pool += ["random-greedy-128"]
    for _ in range(k):
        r = rng.random()
        if r < 0.5:
            o = rng.choice(pool)
            if o == "branch-all" and n > 7:
                o = "branch-1"
            cfgs.append((o, o))
        elif r < 0.62:
            m = rng.choice(["flops", "size", "write", "combo", "limit", "combo-16", "limit-3"])
            so, cc = rng.random() < 0.4, rng.choice([True, True, False, 7])
            cfgs.append(("DP(%s,%s,%s)" % (m, so, cc), oe.DynamicProgramming(minimize=m, search_outer=so and n <= 8, cost_cap=cc)))
        elif r < 0.7:
            nb, m = rng.choice([1, 2, 3]), rng.choice(["flops", "size"])
            cfgs.append(("BB(%s,%s)" % (nb, m), oe.BranchBound(nbranch=nb, minimize=m)))
        elif r < 0.76:
            m = rng.choice(["flops", "size"])
            cfgs.append(("RG(%s)" % m, oe.RandomGreedy(max_repeats=3, minimize=m, temperature=rng.choice([0.0, 1.0, 5.0]))))
        else:
            p = gen.rand_path(rng, n)
            cfgs.append(("path%s" % (p,), p))
    return cfgs


def run_instance(ctx, oe, np, rng, terms, out, sizes, names, dtype, p_bcast, k, implicit=False):
    arrays = make_arrays(np, rng, terms, sizes, dtype, p_bcast)
    ring = "gauss" if dtype == "c" else "mod"
    eq = gen.eq_of(terms, out, names)
    n = len(terms)
    outcomes, index = [], {}
    passed = arrays
    if rng.random() < 0.1:
        passed = [a.tolist() if a.ndim == 0 else a for a in arrays]
    elif rng.random() < 0.05:          # nested lists
        passed = [a.tolist() if a.size and rng.random() < 0.6 else a for a in arrays]
    for name, o in configs(oe, rng, n, k):
        kw = {}
        if rng.random() < 0.3:
            kw["use_blas"] = rng.random() < 0.5
        lim = None
        if o is not False and rng.random() < 0.35:
            lim = rng.choice([-1, "max_input", 1, 2, 4, 8, 16, 30])
            kw["memory_limit"] = lim
        ctx.doing((eq, [a.shape for a in arrays], name, kw))
        r = ctx.call(lambda: oe.contract(eq, *passed, optimize=o, **kw))
        if r[0] == "ok":
            c = _np_to_case(np, r[1], ring)
            oc = {"k": "value", "shape": c["shape"], "data": c["data"], "e": ""} if c else {"k": "malformed", "shape": [], "data": [], "e": ""}
        else:
            may = lim is not None and lim != -1 and ("dp" in name or "DP" in name or name in ("dynamic-programming", "auto-hq")) and r[1] == "RuntimeError"
            oc = {"k": "nopath" if may else "error", "shape": [], "data": [], "e": r[1]}
        key = (oc["k"], oc["e"], tuple(oc["shape"]), str(oc["data"]))
        if key not in index:
            index[key] = len(outcomes)
            outcomes.append(oc)
        cfgs_by.setdefault(index[key], []).append([name, {a: str(b) for a, b in kw.items()}])
    return eq, arrays, outcomes, ring


cfgs_by = {}


def emit(ctx, np, terms, out, eq, arrays, outcomes, ring, big):
    case = {"ring": ring, "big": big, "ts": tensors_case(np, terms, arrays, ring), "out": list(out), "outcomes": outcomes}
    ctx.emit(case, {"eq": eq, "shapes": [list(a.shape) for a in arrays],
                    "data": [str(a.tolist())[:300] for a in arrays],
                    "configs": [[i, c[:12]] for i, c in sorted(cfgs_by.items())]})
    cfgs_by.clear()


def rec_small(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(2600, 30000))):
        n = rng.choice([1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        nlab = rng.randint(1, {1: 3, 2: 5, 3: 6, 4: 6, 5: 6, 6: 6}[n])
        terms, out, L = gen.network(rng, n, nlab, max_rank=3 if n > 2 else 4, p_repeat=rng.choice([0, 0, 0.25]), p_dup=rng.choice([0, 0, 0.2]))
        while True:
            pool = rng.choice([[2], [2, 3], [2, 3], [1, 2, 3], [0, 1, 2, 3], [2, 3, 4]])
            sizes = {x: rng.choice(pool) for x in range(1, L + 1)}
            if gen.prod(max(1, s) for s in sizes.values()) <= 500:
                break
        names = gen.names_for(rng, L)
        dtype = rng.choice("ffic")
        pb = rng.choice([0, 0, 0.15, 0.3])
        if rng.random() < 0.06:                 # empty dimensions against dimensions of size one
            sizes = {x: rng.choice([0, 0, 2]) for x in sizes}
            pb = 0.5
        r = run_instance(ctx, oe, np, rng, terms, out, sizes, names, dtype, pb, 8)
        emit(ctx, np, terms, out, *r, big=False)


def rec_exhaust(ctx):
    """all two- and three-operand equations over few labels (small scope, every pattern), default optimizer + a sample"""
    import itertools
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    words2 = [w for k in range(0, 4) for w in itertools.product((1, 2, 3), repeat=k) if len(set(w)) >= k - 1]
    def canon(ts):
        m = {}
        for t in ts:
            for x in t:
                if m.setdefault(x, len(m) + 1) != x:
                    return False
        return True
    insts = []
    for pair in itertools.product(words2, repeat=2):
        if not canon(pair):
            continue
        used = sorted({x for t in pair for x in t})
        for k in range(len(used) + 1):
            for o in itertools.permutations(used, k):
                insts.append((pair, o))
    words1 = [w for k in range(0, 3) for w in itertools.permutations((1, 2, 3), k)]
    tri = []
    for t3 in itertools.product(words1, repeat=3):
        if not canon(t3):
            continue
        used = sorted({x for t in t3 for x in t})
        for k in range(len(used) + 1):
            for o in itertools.permutations(used, k):
                tri.append((t3, o))
    # the sample is drawn from the seed, the same in every shard
    import random
    r0 = random.Random("exh%d" % ctx.seed)
    r0.shuffle(insts)
    r0.shuffle(tri)
    insts = insts[: ctx.pick(2500, 10 ** 9)] + tri[: ctx.pick(1200, 10 ** 9)]
    for terms, out in ctx.mine(insts):
        L = max([x for t in terms for x in t], default=0)
        sizes = {x: (2, 3, 2)[x - 1] for x in range(1, L + 1)}
        names = gen.names_for(rng, L, "seq")
        r = run_instance(ctx, oe, np, rng, [list(t) for t in terms], list(out), sizes, names, "f", 0.1, 3)
        emit(ctx, np, terms, out, *r, big=False)


def rec_wide(ctx):
    """operands and results of many dimensions, the output in, against or across the order of the label names"""
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(320, 4000))):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        L = rng.randint(6, 9)
        labs = list(range(1, L + 1))
        shared = rng.sample(labs, rng.choice([0, 1, 1, 2, 3]))
        terms = [[] for _ in range(n)]
        for x in labs:
            k = min(n, rng.choice([2, 2, 2, 3])) if x in shared else 1
            for t in rng.sample(range(n), k):
                terms[t].append(x)
        for t in terms:
            rng.shuffle(t)
        gone = [x for x in shared if rng.random() < 0.8] + [x for x in labs if x not in shared and rng.random() < 0.08]
        out = [x for x in labs if x not in gone]
        names = gen.names_for(rng, L)
        how = rng.random()
        if how < 0.4:
            out.sort(key=lambda x: names[x - 1])
        elif how < 0.6:
            out.sort(key=lambda x: names[x - 1], reverse=True)
        elif how < 0.8:
            rng.shuffle(out)
        sizes = {x: 2 for x in labs}
        if L < 9:
            for x in rng.sample(labs, rng.choice([0, 1, 2])):
                sizes[x] = rng.choice([1, 3])
        if gen.prod(sizes.values()) > 600:
            sizes = {x: 2 for x in labs}
        r = run_instance(ctx, oe, np, rng, terms, out, sizes, names, rng.choice("ffi"), rng.choice([0, 0, 0, 0.1]), 4)
        emit(ctx, np, terms, out, *r, big=False)


def rec_large(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(160, 3000))):
        n = rng.choice([7, 8, 9, 12, 15, 16, 17, 20, 24])
        nlab = rng.randint(n - 2, n + 2)
        terms, out, L = gen.network(rng, n, nlab, max_rank=3, p_dup=rng.choice([0, 0.1]), p_out=0.12, kind=rng.choice(["graph", "chain", "split", "graph"]))
        out = out[:3]
        sizes = {x: rng.choice([2, 2, 2, 3, 1]) for x in range(1, L + 1)}
        names = gen.names_for(rng, L)
        r = run_instance_large(ctx, oe, np, rng, terms, out, sizes, names)
        emit(ctx, np, terms, out, *r, big=True)


def run_instance_large(ctx, oe, np, rng, terms, out, sizes, names):
    arrays = []
    for t in terms:
        shape = [1 if (t.count(x) == 1 and rng.random() < 0.05) else sizes[x] for x in t]
        arrays.append(np.array([rng.choice([-1, 1, 1, 2, 0]) for _ in range(gen.prod(shape))], dtype=float).reshape(shape))
    eq = gen.eq_of(terms, out, names)
    n = len(terms)
    outcomes, index = [], {}
    pool = ["auto", "auto-hq", "greedy", "branch-1", "random-greedy", "dp"] + (["branch-2"] if n <= 9 else [])
    cfg = [(o, o, {}) for o in rng.sample(pool, 4)]
    cfg.append(("path", gen.rand_path(rng, n, 2) if n < 10 else "auto", {}))
    cfg.append(("greedy-noblas", "greedy", {"use_blas": False}))
    cfg.append(("auto-limit", "auto", {"memory_limit": rng.choice(["max_input", 64])}))
    for name, o, kw in cfg:
        ctx.doing((eq, [a.shape for a in arrays], name, kw))
        r = ctx.call(lambda: oe.contract(eq, *arrays, optimize=o, **kw), 60)
        if r[0] == "ok":
            c = _np_to_case(np, r[1], "mod")
            oc = {"k": "value", "shape": c["shape"], "data": c["data"], "e": ""} if c else {"k": "malformed", "shape": [], "data": [], "e": ""}
        else:
            oc = {"k": "error", "shape": [], "data": [], "e": r[1]}
        key = (oc["k"], oc["e"], tuple(oc["shape"]), str(oc["data"]))
        if key not in index:
            index[key] = len(outcomes)
            outcomes.append(oc)
        cfgs_by.setdefault(index[key], []).append([name, {a: str(b) for a, b in kw.items()}, str(o)[:200]])
    return eq, arrays, outcomes, "mod"


def plan(c):
    c.model("MC_Einsum", c.pick("MC_Einsum.cfg", "MC_Einsum_thorough.cfg"), expect_min=700)
    recs = c.record("exhaust") + c.record("small") + c.record("wide") + c.record("large")
    c.judge("T_Value", recs, states_per=2)
    c.assumptions.append("values are observed as integers modulo 46337 (operands are small integers, so numpy's arithmetic on them is exact)")
