"""C11: scope and reuse of the sharing caches (one thread). C12 reuses the parts below with several threads."""
import json
from vlib import gen
from vlib.threads import World, exits, program

EQS = {1: ("ab,ba->ab", (0, 1)), 2: ("ca,ac->ac", (1, 0)), 3: ("ab,bc->ac", (0, 1)), 4: ("ab,bc->ca", (0, 1)), 5: ("ab,ba,a->ab", (0, 1, 2))}


def setup(ctx):
    import numpy as np
    import opt_einsum as oe
    from vlib.reclib import Lib
    return np, oe, Lib("reclib")


def mk(oe, eq, path=None, shapes=None, expr=False, out=None):
    """out: makes an array for the result, or None"""
    kw = {} if path is None else {"optimize": path}
    if expr:
        e = oe.contract_expression(eq, *shapes, **kw)
        if out is not None:
            return lambda *ops: e(*ops, out=out())
        return lambda *ops: e(*ops)
    if out is not None:
        return lambda *ops: oe.contract(eq, *ops, out=out(), **kw)
    return lambda *ops: oe.contract(eq, *ops, **kw)


def emit(ctx, w, known, meta):
    try:
        counts = w.counts()
    except Exception as e:
        counts = [{"cache": 1, "n": {"einsum": -1, "tensordot": -1, "transpose": -1}}]
        meta = dict(meta, counts=repr(e))
    ctx.emit({"threads": w.n, "known": known, "fine": not getattr(w, "gated", True) and w.n > 1, "evs": w.evs, "counts": counts}, meta)


def replay(ctx, np, oe, lib, hist, nthreads, gated):
    rng = ctx.rng
    d = rng.choice([(2, 3), (2, 2), (3, 1)])
    leaves = [lib.array(np.arange(1., 1 + d[0] * d[1]).reshape(d)), lib.array(np.arange(2., 2 + d[0] * d[1]).reshape(d[::-1])), lib.array(np.arange(3., 3 + d[0]))]
    exprs = {}
    for p, (eq, which) in EQS.items():
        ls = [leaves[i] for i in which]
        fn = mk(oe, eq, None, [a.shape for a in ls], rng.random() < 0.3)
        exprs[p] = (fn, program(lib, fn, ls), ls)
    w = World(lib, nthreads, exprs, leaves, gated)
    shared = {}
    by = {1: shared}
    w.cache_id(shared)
    for e in hist:
        t, k = e["t"], e["e"]
        if k not in ("fin", "raise"):
            w.settle(t)
        if k == "new":
            w.enter(t, None)
            by[e["a"]] = w.last
        elif k == "use":
            w.enter(t, by.get(e["a"], shared))
        elif k == "exit":
            if w.workers[t].cms:
                w.exit(t, exits(rng))
        elif k == "run":
            w.run(t, e["a"])
        elif k == "fin":
            w.finish(t)
        elif k == "raise":
            w.finish(t, "raise")
    w.close()
    if w.broken:
        raise RuntimeError("worker failed: " + w.broken)
    emit(ctx, w, [1], {"history": ["%s %s %s" % (e["e"], e["t"], e["a"]) for e in hist]})
    lib.log.clear()


def rec_spec(ctx):
    np, oe, lib = setup(ctx)
    for line in ctx.mine(open(ctx.params["file"])):
        ctx.doing(line)
        replay(ctx, np, oe, lib, json.loads(line), ctx.params["threads"], True)


def variants(rng, terms, out, L):
    """the same einsum with other names and operand order"""
    names = gen.names_for(rng, L)
    order = list(range(len(terms)))
    rng.shuffle(order)
    return order, gen.eq_of([terms[i] for i in order], out, names)


def rec_rand(ctx):
    np, oe, lib = setup(ctx)
    rng = ctx.rng
    nt = ctx.params["threads"]
    from vlib.reclib import Lib
    full, bare = lib, Lib("recbare", funcs=("tensordot", "transpose"))
    for _ in range(ctx.share(ctx.params["n"])):
        d = 2
        lib = bare if rng.random() < 0.2 else full       # bare: outer products are tensordots as well
        pool = {r: [lib.array(np.array([rng.randint(0, 3) for _ in range(d ** r)], float).reshape((d,) * r)) for _ in range(2)] for r in range(0, 5)}
        exprs = []
        for _ in range(rng.randint(2, 4)):
            n = rng.randint(1, 4)
            if lib is bare:
                n = max(n, 2)
                terms, out, L = gen.two_places(rng, n, rng.randint(1, 5))
            else:
                terms, out, L = gen.network(rng, n, rng.randint(2, 5), max_rank=3, p_repeat=0.1, p_dup=0.2, p_scalar=0.02)
            if any(len(t) > 4 for t in terms):
                continue
            base = [rng.choice(pool[len(t)]) for t in terms]
            path = gen.rand_path(rng, n, 2) if rng.random() < 0.5 and n > 1 else rng.choice(["greedy", "optimal", "auto", "dp"] if n > 1 else ["auto"])
            if lib is bare and not isinstance(path, str):
                path = [s for s in path if len(s) > 1]
            if lib is full and n > 2 and rng.random() < 0.35:       # all at once: one einsum of three or four operands
                path = [tuple(rng.sample(range(n), n))]
            for v in range(rng.randint(1, 3)):
                order, eq = variants(rng, terms, out, L) if v else (list(range(n)), gen.eq_of(terms, out, gen.names_for(rng, L)))
                ls = [base[i] for i in order]
                room = (lambda k=len(out), lib=lib: lib.array(np.zeros((d,) * k))) if rng.random() < 0.15 else None
                fn = mk(oe, eq, path, [a.shape for a in ls], rng.random() < 0.3, room)
                ctx.doing((eq, str(path)))
                exprs.append((fn, program(lib, fn, ls), ls, eq))
        if not exprs:
            continue
        w = World(lib, nt, {i: e[:3] for i, e in enumerate(exprs)}, None, nt > 1)
        caches = [{}]
        w.cache_id(caches[0])
        say = []
        for _ in range(rng.randint(8, 24)):
            t = rng.randint(1, nt)
            k = rng.choice(["enter", "run", "run", "run", "run", "exit", "fin", "fin", "raise"])
            if k not in ("fin", "raise"):
                w.settle(t)
            if k == "enter" and len(w.workers[t].cms) < 3:
                c = rng.choice(caches + [None, None])
                w.enter(t, c)
                if c is None:
                    caches.append(w.last)
                say.append((t, "enter", c is None))
            elif k == "exit" and w.workers[t].cms:
                w.exit(t, exits(rng))
                say.append((t, "exit"))
            elif k == "run":
                i = rng.randrange(len(exprs))
                w.run(t, i)
                say.append((t, "run", exprs[i][3], [a.serial for a in exprs[i][2]]))
            elif k == "fin":
                w.finish(t)
                say.append((t, "fin"))
            elif k == "raise":
                if w.workers[t].state == "exec":
                    w.finish(t, "raise")
                    say.append((t, "raise"))
        w.close()
        if w.broken:
            raise RuntimeError("worker failed: " + w.broken)
        emit(ctx, w, [1], {"history": say})
        lib.log.clear()


def rec_many(ctx):
    """caches with thousands of entries: is anything performed a second time?"""
    np, oe, lib = setup(ctx)
    rng = ctx.rng
    N = ctx.params["n"]
    eqs = {1: ["ab->ba", "ab->a", "ab->b"], 2: ["ab,bc->ac", "ab,cb->ac", "ab,ab->ab", "ab,ac->bc"]}
    for it in range(ctx.share(ctx.params["hist"])):
        pool = [lib.array(np.array([[rng.randint(0, 3), 1.], [2., 3.]])) for _ in range(max(4, N // 12))]
        cand = [(eq, (i,)) for i in range(len(pool)) for eq in eqs[1]]
        cand += [(rng.choice(eqs[2]), (i, i)) for i in range(len(pool))]
        cand += [(rng.choice(eqs[2]), tuple(rng.sample(range(len(pool)), 2))) for _ in range(8 * len(pool))]
        cand = list(dict.fromkeys(cand))
        # commuting the operands of an elementwise product is the same operation: keep one of both
        seen, ops = set(), []
        for eq, w in cand:
            k = (eq, tuple(sorted(w))) if eq == "ab,ab->ab" else (eq, w)
            if k not in seen:
                seen.add(k)
                ops.append((eq, w))
        rng.shuffle(ops)
        ops = ops[:N]
        E = {eq: oe.contract_expression(eq, *[(2, 2)] * (eq.count(",") + 1), optimize="greedy") for v in eqs.values() for eq in v}
        keys, ran = [], []
        cm = oe.shared_intermediates()
        cache = cm.__enter__()
        order = list(range(len(ops)))
        again = order[:4] + [rng.randrange(len(ops)) for _ in range(len(ops) // 4)] + [i for i in order if ops[i][1] == (ops[i][1][0],) * 2]
        for step, i in enumerate(order + again):
            if step == len(order) and rng.random() < 0.5:      # resumed
                cm.__exit__(None, None, None)
                cm = oe.shared_intermediates(cache)
                cm.__enter__()
            eq, w = ops[i]
            n0 = len(lib.log)
            ctx.doing((eq, w, step))
            E[eq](*[pool[x] for x in w])
            keys.append(i + 1)
            ran.append(len(lib.log) - n0 > 0)
        cm.__exit__(None, None, None)
        lib.log.clear()
        ctx.emit({"keys": keys, "ran": ran}, {"entries": len(cache), "operations": len(ops), "requests": len(keys), "first repeated": [(s, ops[k - 1]) for s, (k, r) in enumerate(zip(keys, ran)) if r and s >= len(order)][:5]})


def plan(c):
    r = c.model("MC_Sharing", c.pick("MC_Sharing1.cfg", "MC_Sharing1L.cfg"), expect_min=5000)
    recs = c.record("spec", file=c.emitted(r, c.pick(2000, 30000)), threads=1)
    r = c.simulate("MC_Sharing", "MC_SharingSim1.cfg", c.pick(600, 6000), 20)
    recs += c.record("spec", file=c.emitted(r, c.pick(600, 6000)), threads=1)
    c.judge("T_Share", recs, name="histories of the specification")
    c.judge("T_Share", c.record("rand", n=c.pick(1500, 15000), threads=1), name="random histories")
    c.judge("T_Many", c.record("many", n=c.pick(6000, 40000), hist=c.pick(8, 16)), states_per=2, name="caches with thousands of entries")
    c.assumptions.append("arrays are not modified in place while a cache holds results computed from them")
