"""C21: when a step is handed to tensordot, and what the report says about it."""
import json
from vlib import gen

P = 1009


def rec_flags(ctx):
    """pairs enumerated by TLC"""
    from opt_einsum import blas
    rng = ctx.rng
    for line in ctx.mine(open(ctx.params["file"])):
        p = json.loads(line)
        nm = [""] + gen.names_for(rng, 6)
        l, r = "".join(nm[x] for x in p["l"]), "".join(nm[x] for x in p["r"])
        res = [nm[x] for x in p["res"]]
        rng.shuffle(res)
        rm = frozenset(l + r) - frozenset(res)
        ctx.doing((l, r, res, p["lsh"], p["rsh"]))
        a = ctx.call(lambda: blas.can_blas([l, r], "".join(res), rm, [tuple(p["lsh"]), tuple(p["rsh"])]))
        b = ctx.call(lambda: blas.can_blas([l, r], "".join(res), rm))
        if a[0] == "err" or b[0] == "err":
            ctx.emit({"k": "error", "e": a[1] if a[0] == "err" else b[1]}, {"l": l, "r": r, "res": "".join(res)})
        else:
            ctx.emit(dict(p, k="flag", got=str(a[1]), gotn=str(b[1])), {"l": l, "r": r, "res": "".join(res), "shapes": [p["lsh"], p["rsh"]]})


def rec_wide(ctx):
    """pairs of larger operands"""
    from opt_einsum import blas
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(15000, 100000))):
        L = rng.randint(1, 7)
        if rng.random() < 0.6:      # mostly eligible, with matching blocks at either end
            k = rng.randint(0, L)
            labs = rng.sample(range(1, L + 1), L)
            S, rest = labs[:k], labs[k:]
            cut = rng.randint(0, len(rest))
            kl, kr = rest[:cut], rest[cut:]

            def word(keep):
                s = S if rng.random() < 0.6 else rng.sample(S, len(S))
                m = rng.random()
                if m < 0.4:
                    return s + keep
                if m < 0.8:
                    return keep + s
                w = s + keep
                return rng.sample(w, len(w))
            l, r = word(kl), word(kr)
            res = list(rest)
            if rng.random() < 0.15 and (l + r):
                res = [x for x in set(l + r) if (x in res) != (rng.random() < 0.15)]
        else:
            l = [rng.randint(1, L) for _ in range(rng.randint(0, 4))]
            r = [rng.randint(1, L) for _ in range(rng.randint(0, 4))]
            res = [x for x in sorted(set(l + r)) if rng.random() < 0.5]
        dim = {x: rng.choice([1, 2, 3, 3]) for x in range(1, L + 1)}
        lsh = [1 if rng.random() < 0.05 else dim[x] for x in l]
        rsh = [1 if rng.random() < 0.05 else dim[x] for x in r]
        nm = [""] + gen.names_for(rng, 8)
        ls, rs, rr = ("".join(nm[x] for x in w) for w in (l, r, res))
        rm = frozenset(ls + rs) - frozenset(rr)
        ctx.doing((ls, rs, rr, lsh, rsh))
        a = ctx.call(lambda: blas.can_blas([ls, rs], rr, rm, [tuple(lsh), tuple(rsh)]))
        b = ctx.call(lambda: blas.can_blas([ls, rs], rr, rm))
        meta = {"l": ls, "r": rs, "res": rr, "shapes": [lsh, rsh]}
        if a[0] == "err" or b[0] == "err":
            ctx.emit({"k": "error", "e": a[1] if a[0] == "err" else b[1]}, meta)
        else:
            ctx.emit({"k": "flag", "l": l, "r": r, "res": res, "lsh": lsh, "rsh": rsh, "got": str(a[1]), "gotn": str(b[1])}, meta)


def steps_of(info_list, names):
    num = {ch: i + 1 for i, ch in enumerate(names)}
    out = []
    for con in info_list:
        inds, _, es, _, flag = con
        lhs, rhs = es.split("->")
        out.append({"inds": [int(i) for i in inds], "ins": [[num[ch] for ch in t] for t in lhs.split(",")], "out": [num[ch] for ch in rhs], "flag": str(flag)})
    return out


def rec_steps(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(7000, 50000))):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 24])
        terms, out, NL = gen.network(rng, n, rng.randint(1, 2 + n), max_rank=4, p_repeat=0.08, p_dup=0.1)
        names = gen.names_for(rng, NL)
        sizes = {x: rng.choice([1, 2, 3, 4]) for x in range(1, NL + 1)}
        pb = rng.choice([0, 0, 0.1, 0.3])
        shapes = [[1 if t.count(x) == 1 and rng.random() < pb else sizes[x] for x in t] for t in terms]
        eq = gen.eq_of(terms, out, names)
        path = rng.choice(["auto", "greedy"] + ["dp"] * (n <= 8)) if rng.random() < 0.3 else gen.rand_path(rng, n)
        blas = rng.random() < 0.85
        meta = {"eq": eq, "shapes": shapes, "optimize": str(path), "use_blas": blas}
        ctx.doing(meta)
        kw = {} if blas and rng.random() < 0.7 else {"use_blas": blas}
        if rng.random() < 0.5:
            r = ctx.call(lambda: oe.contract_path(eq, *map(tuple, shapes), shapes=True, optimize=path, **kw)[1].contraction_list)
        else:
            r = ctx.call(lambda: oe.contract_expression(eq, *map(tuple, shapes), optimize=path, **kw).contraction_list)
        if r[0] == "err":
            ctx.emit({"k": "error", "e": r[1]}, meta)
        else:
            ctx.emit({"k": "steps", "ts": [{"l": t, "sh": s} for t, s in zip(terms, shapes)], "out": out, "blas": blas, "steps": steps_of(r[1], names)}, meta)


def rec_runs(ctx):
    import numpy as np
    import opt_einsum as oe
    from vlib.reclib import Lib
    rng = ctx.rng
    full = Lib("recfull")
    bare = Lib("recbare", funcs=("tensordot", "transpose"))
    for it in range(ctx.share(ctx.pick(6000, 40000))):
        lib = full if it % 2 else bare
        n = rng.choice([2, 2, 3, 3, 4, 5])
        if lib is full:
            terms, out, NL = gen.network(rng, n, rng.randint(1, 6), max_rank=3, p_repeat=0.06, p_dup=0.1)
        else:
            # every label in exactly two places
            terms, out, NL = gen.two_places(rng, n, rng.randint(0, 6))
        names = gen.names_for(rng, max(1, NL))
        sizes = {x: rng.choice([1, 2, 2, 3]) for x in range(1, NL + 1)}
        pb = rng.choice([0, 0, 0.15]) if lib is full else 0
        ts, arrs = [], []
        for t in terms:
            sh = [1 if t.count(x) == 1 and rng.random() < pb else sizes[x] for x in t]
            a = np.array([rng.randrange(P) for _ in range(gen.prod(sh))], dtype=np.int64).reshape(sh) % 7
            ts.append({"labels": t, "shape": sh, "data": [int(v) for v in a.reshape(-1)]})
            arrs.append(lib.array(a))
        eq = gen.eq_of(terms, out, names)
        if lib is full:
            path = gen.rand_path(rng, n) if rng.random() < 0.7 else rng.choice(["auto", "greedy", "dp"])
        else:
            path = gen.rand_path(rng, n, 2) if rng.random() < 0.7 else rng.choice(["optimal", "greedy", "dp"])
            if not isinstance(path, str):
                path = path[:n - 1]
        use = True if lib is bare else rng.random() < 0.85
        meta = {"eq": eq, "shapes": [t["shape"] for t in ts], "optimize": str(path), "library": lib.name, "use_blas": use}
        ctx.doing(meta)
        del lib.log[:]
        how = rng.choice(["contract", "expr"])

        def run():
            steps = oe.contract_path(eq, *arrs, optimize=path, use_blas=use)[1].contraction_list
            if how == "contract":
                v = oe.contract(eq, *arrs, optimize=path, use_blas=use)
            else:
                v = oe.contract_expression(eq, *[a.shape for a in arrs], optimize=path, use_blas=use)(*arrs)
            return [str(s[-1]) for s in steps], v
        r = ctx.call(run)
        case = {"k": "run", "ts": ts, "out": out, "einsum": lib is full, "flags": [], "ops": [o["kind"] for o in lib.log], "e": "", "shape": [], "data": []}
        if r[0] == "err":
            case["e"] = r[1]
            meta["error"] = r[2]
        elif not isinstance(r[1][1], lib.Arr):
            case["e"] = "ResultOfOtherLibrary"
        else:
            v = r[1][1].a
            case.update(flags=r[1][0], shape=[int(d) for d in v.shape], data=[int(x) % 46337 for x in v.reshape(-1)])
        ctx.emit(case, meta)


def plan(c):
    c.model("MC_Blas")
    if not c.quick:
        c.model("MC_Blas", "MC_Blas3.cfg")
    r = c.model("MC_Blas", "MC_BlasEmit.cfg")
    f = c.emitted(r, c.pick(15000, None))
    c.judge("T_Blas", c.record("flags", file=f) + c.record("wide"), states_per=2, name="pairs")
    c.judge("T_Blas", c.record("steps"), states_per=2, name="classification of whole paths")
    c.judge("T_Blas", c.record("runs"), states_per=2, name="calls received by a library")
