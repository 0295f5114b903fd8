"""C24: backend='object' over commutative semirings."""
from fractions import Fraction
from vlib import gen
from vlib.algebra import Elem, sample, P


def js(v):
    return list(v) if isinstance(v, tuple) else v


def rec_main(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for it in range(ctx.share(ctx.pick(50000, 200000))):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        terms, out, NL = gen.network(rng, n, rng.randint(1, 5), max_rank=3, p_repeat=0.12, p_scalar=0.06, p_dup=0.1)
        sizes = {x: rng.choice([2, 2, 3, 1]) for x in range(1, NL + 1)}
        names = gen.names_for(rng, NL)
        eq = gen.eq_of(terms, out, names)
        ring = rng.choice(list(Elem) + ["frac", "int"])
        pb = rng.choice([0, 0, 0.1])
        ts, arrs = [], []
        for t in terms:
            rep = {x for x in t if t.count(x) > 1}
            shape = [1 if x not in rep and rng.random() < pb else sizes[x] for x in t]
            m = gen.prod(shape)
            a = np.empty(m, dtype=object)
            if ring == "frac":
                vals = [Fraction(rng.randint(-20, 20), rng.randint(1, 30)) for _ in range(m)]
                data = [v.numerator * pow(v.denominator, -1, P) % P for v in vals]
            elif ring == "int":
                vals = [rng.choice([-1, 1]) * rng.getrandbits(rng.choice([3, 80])) for _ in range(m)]
                data = [v % P for v in vals]
            else:
                raw = [sample(rng, ring) for _ in range(m)]
                vals = [Elem[ring](v) for v in raw]
                data = [js(v) for v in raw]
            for i, v in enumerate(vals):
                a[i] = v
            ts.append({"labels": list(t), "shape": shape, "data": data})
            arrs.append(a.reshape(shape))
        if n > 1 and rng.random() < 0.1 and ts[0]["labels"] == ts[1]["labels"] and ts[0]["shape"] == ts[1]["shape"]:
            arrs[1], ts[1] = arrs[0], ts[0]
        outcomes, index = [], {}
        confs = []
        for _ in range(3):
            path = rng.choice(["auto", "greedy", "optimal", "dp", "branch-2"]) if rng.random() < 0.5 else gen.rand_path(rng, n)
            kw = {"optimize": path}
            if rng.random() < 0.3:
                kw["use_blas"] = rng.random() < 0.5
            how = rng.choice(["contract", "contract", "expr", "const", "share", "out"])
            if how in ("contract", "share", "out") and rng.random() < 0.15:
                kw["optimize"] = False
            ctx.doing((eq, ring, [a.shape for a in arrs], str(kw), how))

            def run():
                if how == "contract":
                    return oe.contract(eq, *arrs, backend="object", **kw)
                if how == "out":
                    x = np.empty([max(a.shape[t.index(y)] for t, a in zip(terms, arrs) if y in t) for y in out], dtype=object)
                    return oe.contract(eq, *arrs, backend="object", out=x, **kw)
                if how == "share":
                    with oe.shared_intermediates():
                        oe.contract(eq, *arrs, backend="object", **kw)
                        return oe.contract(eq, *arrs, backend="object", **kw)
                if how == "expr":
                    return oe.contract_expression(eq, *[a.shape for a in arrs], **kw)(*arrs, backend="object")
                cs = sorted(rng.sample(range(n), rng.randint(1, n)))
                e = oe.contract_expression(eq, *[a if i in cs else a.shape for i, a in enumerate(arrs)], constants=cs, **kw)
                return e(*[a for i, a in enumerate(arrs) if i not in cs], backend="object")
            r = ctx.call(run)
            if r[0] != "ok":
                oc = {"k": "error", "shape": [], "data": [], "e": r[1]}
            else:
                x = r[1]
                bad = False
                data = []
                flat = list(x.reshape(-1)) if isinstance(x, np.ndarray) else [x]
                shape = [int(d) for d in x.shape] if isinstance(x, np.ndarray) else []
                for v in flat:
                    if ring == "frac":
                        if not isinstance(v, Fraction):
                            bad = True
                            break
                        data.append(v.numerator * pow(v.denominator, -1, P) % P)
                    elif ring == "int":
                        if type(v) is not int:
                            bad = True
                            break
                        data.append(v % P)
                    elif type(v) is not Elem[ring]:
                        bad = True
                        break
                    else:
                        data.append(js(v.v))
                oc = {"k": "malformed" if bad else "value", "shape": shape, "data": [] if bad else data, "e": ""}
            key = str(oc)
            if key not in index:
                index[key] = True
                outcomes.append(oc)
                confs.append((how, str(kw), str(r)[:150]))
        ctx.emit({"ring": "mod" if ring in ("frac", "int") else ring, "ts": ts, "out": out, "big": False, "outcomes": outcomes}, {"eq": eq, "algebra": ring, "shapes": [t["shape"] for t in ts], "configurations": confs})


def plan(c):
    c.model("MC_Semiring")
    c.judge("T_Value", c.record("main"), states_per=2, name="algebras")
    c.assumptions.append("sums are not empty (no dimension of size zero)")
