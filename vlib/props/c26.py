"""C26: randomly generated contractions are what was asked for."""
from vlib import gen


def labels(eq):
    lhs, out = eq.split("->")
    seen = {}
    num = lambda s: [seen.setdefault(ch, len(seen) + 1) for ch in s]
    return [num(t) for t in lhs.split(",")], num(out), seen


def rec_main(ctx):
    from opt_einsum import testing
    import numpy as np
    rng = ctx.rng
    for it in range(ctx.share(ctx.pick(30000, 200000))):
        n = rng.choice([2, 2, 3, 4, 5, 6, 8, 10, 15, 30])
        reg = rng.choice([0, 1, 1, 2, 3, 4, 5]) if n < 30 else rng.choice([1, 3, 5, 7])
        nout = rng.choice([0, 0, 1, 2, 3, 5, n])
        glob = rng.random() < 0.4
        dmin = rng.choice([1, 2, 2, 3, 7])
        dmax = dmin + rng.choice([0, 0, 1, 2, 7])
        seed = rng.choice([None, 0, rng.randint(1, 10 ** 6)])
        want = rng.random() < 0.5
        kw = dict(n_out=nout, d_min=dmin, d_max=dmax, seed=seed, global_dim=glob)
        if want:
            kw["return_size_dict"] = True
        if rng.random() < 0.5:
            f = lambda: testing.rand_equation(n, reg, **kw)
        else:
            kw = {k: v for k, v in kw.items() if v is not None}
            f = lambda: testing.rand_equation(n=n, regularity=reg, **kw)
        ctx.doing((n, reg, kw))
        r = ctx.call(f, 20)
        case = {"k": "eq", "e": "", "r": {"n": n, "bonds": n * reg // 2, "nout": nout, "glob": glob}, "dmin": dmin, "dmax": dmax,
                "terms": [], "out": [], "sizes": [], "shapes": [], "extra": False, "a": "", "b": ""}
        if r[0] == "ok":
            try:
                eq, shapes = r[1][0], r[1][1]
                assert len(r[1]) == 2 + want and type(eq) is str
                terms, out, seen = labels(eq)
                if want:
                    sd = r[1][2]
                    case["extra"] = set(sd) != set(seen)
                else:
                    sd = {}
                    for t, s in zip(eq.split("->")[0].split(","), shapes):
                        for ch, d in zip(t, s):
                            sd.setdefault(ch, d)
                case.update(terms=terms, out=out, shapes=[[int(d) for d in s] for s in shapes],
                            sizes=[int(sd.get(ch, -1)) for ch in seen])
            except Exception as e:
                case["e"] = "malformed-" + type(e).__name__
        else:
            case["e"] = r[1]
        ctx.emit(case, {"call": "rand_equation(%d, %d, %s)" % (n, reg, kw), "result": str(r[1])[:300]})
        if seed is not None and rng.random() < 0.5:
            np.random.rand(rng.randint(0, 3))
            r2 = ctx.call(f, 20)
            ctx.emit(dict(case, k="same", e=r2[1] if r2[0] == "err" else "", a=repr(r[1]), b=repr(r2[1])), {"call": "rand_equation(%d, %d, %s) twice" % (n, reg, kw)})


def rec_shapes(ctx):
    from opt_einsum import testing
    rng = ctx.rng
    for it in range(ctx.share(ctx.pick(10000, 50000))):
        n = rng.randint(1, 5)
        terms, out, L = gen.network(rng, n, rng.randint(1, 8), max_rank=4, p_repeat=0.15, p_scalar=0.1)
        names = rng.sample("abcdefghijklmnopqABC", L) if rng.random() < 0.6 else gen.names_for(rng, L)
        sd = {names[i]: rng.randint(0, 6) for i in range(L)}
        eq = gen.eq_of(terms, out, names)
        if rng.random() < 0.3:
            eq = eq.split("->")[0]
        views = rng.random() < 0.5
        f = (lambda: testing.build_views(eq, sd)) if views else (lambda: testing.build_shapes(eq, sd))
        ctx.doing((eq, sd))
        r = ctx.call(f, 20)
        case = {"k": "shapes", "e": "" if r[0] == "ok" else r[1], "terms": terms, "out": out, "sizes": [sd[names[i]] for i in range(L)],
                "shapes": [[int(d) for d in (getattr(x, "shape", ()) if views else x)] for x in r[1]] if r[0] == "ok" else [],
                "r": {"n": n, "bonds": 0, "nout": 0, "glob": False}, "dmin": 0, "dmax": 0, "extra": False, "a": "", "b": ""}
        ctx.emit(case, {"eq": eq, "sizes": sd, "result": str(case["shapes"])})


def plan(c):
    c.model("MC_RandEq", c.pick("MC_RandEq.cfg", "MC_RandEq4.cfg"), expect_min=100000)
    c.judge("T_RandEq", c.record("main") + c.record("shapes"), states_per=2)
    c.assumptions.append("two operands or more (a single operand cannot hold a label that joins two)")
