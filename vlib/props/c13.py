"""C13: expressions are pure functions of their arrays."""
import re
from vlib import gen
from vlib.props.c01 import tensors_case
from vlib.props.c10 import Hist
from vlib.props.c14 import fill, rec_threads, rand_expr


def named(r, n):
    """the number an error message names (n if it is among those named)"""
    nums = [int(x) for x in re.findall(r"\d+", r[2])] if r[0] == "err" else []
    return n if n in nums else nums[0] if nums else -1


def rec_hist(ctx):
    import numpy as np
    import opt_einsum as oe
    from vlib import libs
    from vlib.reclib import Lib
    rng = ctx.rng
    names = [["numpy", "torch"], ["numpy", "tensorflow"], ["numpy", "jax"], ["numpy", "dask"]][ctx.shard % 4]
    L_ = libs.load(names)
    A = Lib("reclib")
    H = Hist(ctx, np)
    for _ in range(ctx.share(ctx.params["n"])):
        n = rng.randint(1, 5)
        terms, out, L = gen.network(rng, n, rng.randint(1, 6), max_rank=3, p_repeat=0.06, p_scalar=0.03, p_dup=0.1)
        sizes = {x: rng.choice([1, 2, 2, 3, 3, 0] if rng.random() < 0.15 else [2, 2, 3, 3, 4]) for x in range(1, L + 1)}
        lab = gen.names_for(rng, L)
        eq = gen.eq_of(terms, out, lab)
        o = gen.rand_path(rng, n) if rng.random() < 0.4 else rng.choice(["auto", "greedy", "optimal", "dp", True, "auto-hq", oe.RandomGreedy(max_repeats=2), oe.DynamicProgramming()])
        kw = {"use_blas": False} if rng.random() < 0.2 else {}
        if rng.random() < 0.15:
            kw["memory_limit"] = rng.choice([-1, 1000, "max_input"])
        inter = rng.random() < 0.25
        shapes = [tuple(sizes[x] for x in t) for t in terms]
        build = [list(s) if rng.random() < 0.2 else s for s in shapes]
        ctx.doing(("build", eq, shapes, str(o)))
        if inter:
            args = []
            for t, s in zip(terms, build):
                args += [s, [lab[x - 1] for x in t]]
            args.append([lab[x - 1] for x in out])
            e = ctx.call(lambda: oe.contract_expression(*args, optimize=o, **kw))
        else:
            e = ctx.call(lambda: oe.contract_expression(eq, *build, optimize=o, **kw))
        meta0 = {"eq": eq, "shapes": shapes, "optimize": str(o), "kw": str(kw), "interleaved": inter}
        if e[0] != "ok":
            if "memory_limit" in kw and e[1] == "RuntimeError":
                continue
            ctx.emit({"k": "args", "out": e[1], "msg": -1, "n": n, "given": n}, meta0)
            continue
        e = e[1]
        hist = []
        for _ in range(rng.randint(3, 7)):
            if rng.random() < 0.12:
                m = rng.choice([k for k in range(0, n + 3) if k != n])
                give = (fill(np, rng, terms, sizes) * 3)[:m]
                r = ctx.call(lambda: e(*give))
                ctx.emit({"k": "args", "out": "ok" if r[0] == "ok" else r[1], "msg": named(r, n), "n": n, "given": m}, dict(meta0, hist=list(hist), result=str(r)[:200]))
                hist.append("wrong count")
                continue
            sz = dict(sizes)
            if rng.random() < 0.5:
                sz = {x: (rng.choice([2, 3, 4, 5]) if s > 1 and rng.random() < 0.6 else s) for x, s in sizes.items()}
                if sz and rng.random() < 0.1:
                    sz[rng.choice(list(sz))] = rng.choice([0, 1])
            ops = fill(np, rng, terms, sz)
            b = rng.choice(names + ["numpy", "reclib", "object"])
            native = False
            wrap = lambda r: r
            if b in ("numpy", "reclib", "object"):
                if b == "reclib":
                    give, wrap, native = [A.array(a) for a in ops], (lambda r: r.a), True
                elif b == "object":
                    give, wrap, native = [a.astype(int).astype(object) for a in ops], (lambda r: np.asarray(r).astype(float)), True
                    if any(s == 0 for s in sz.values()):
                        continue
                else:
                    give = ops
            else:
                native = b == "dask" or rng.random() < 0.4
                give = [L_[b][0](a) for a in ops] if native else ops
                wrap = L_[b][1] if native else wrap
            if b == "dask" and (any(s < 2 for s in sz.values()) or any(len(set(t)) < len(t) for t in terms)):
                continue          # dask's own einsum is limited
            bk = b if (b == "object" or not native or rng.random() < 0.5) else "auto"
            kw2 = {}
            outa = None
            if b == "numpy" and rng.random() < 0.2 and out:
                outa = np.full([sz[x] for x in out], 7.5)
                kw2["out"] = outa
            ctx.doing((eq, str(o), sz, b, hist))
            r = ctx.call(lambda: wrap(e(*give, backend=bk, **kw2)))
            hist.append((b, "native" if native else "numpy", str(sz), outa is not None))
            inside = H.value(r)
            outside = H.value(ctx.call(lambda: oe.contract(eq, *ops, optimize=o if isinstance(o, (str, list, bool)) else "auto")))
            ctx.emit({"k": "val", "ring": "mod", "typed": False, "ts": tensors_case(np, terms, ops, "mod"), "out": out, "inside": inside, "outside": outside},
                     dict(meta0, history=list(hist), inside=inside, outside=outside, err=str(r)[:200] if r[0] != "ok" else ""))
        A.log.clear()
    # rejected constructions
    for _ in range(4):
        x = np.ones((2, 2))
        for kw, want in (({"out": x}, "ValueError"), ({"out": np.zeros(rng.choice([(), (1,), (1, 1), (0, 2)]))}, "ValueError"), ({"backend": "numpy"}, "ValueError"), ({"optimize": False}, "ValueError")):
            r = ctx.call(lambda: oe.contract_expression(rng.choice(["ab,bc->ac", "ab,ab->"]), (2, 2), (2, 2), **kw))
            ctx.emit({"k": "reject", "out": "ok" if r[0] == "ok" else r[1], "want": want, "msg": -1, "n": 0, "given": 0}, {"kw": str(kw)})


def rec_counts(ctx):
    """wrong numbers of arrays for expressions with constants, before and after right calls"""
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(400, 4000))):
        n, terms, out, L, sizes, eq, consts, path = rand_expr(ctx, rng, np)
        base = fill(np, rng, terms, sizes)
        e = oe.contract_expression(eq, *[base[i] if i in consts else base[i].shape for i in range(n)], constants=consts, optimize=path)
        need = n - len(consts)
        for call in range(3):
            m = rng.choice([k for k in range(0, n + 2) if k != need] + [need])
            vs = [base[i] for i in range(n) if i not in consts]
            give = vs if m == need else (vs * 3 + base * 3)[:m]
            ctx.doing((eq, consts, str(path), m))
            r = ctx.call(lambda: e(*give))
            if m == need and r[0] == "ok":
                continue
            ctx.emit({"k": "args", "out": "ok" if r[0] == "ok" else r[1], "msg": named(r, need), "n": need, "given": m}, {"eq": eq, "constants": consts, "given": m, "needed": need, "result": str(r)[:200]})


def rec_spec(ctx):
    """histories of MC_Calls"""
    import json
    import numpy as np
    import opt_einsum as oe
    from vlib import libs
    from vlib.reclib import Lib
    from vlib.props.c14 import FailAt
    rng = ctx.rng
    b = ["torch", "tensorflow", "jax", "torch"][ctx.shard % 4]
    L_ = libs.load([b])
    A = Lib("reclib")
    H = Hist(ctx, np)
    fail = FailAt(A)
    A.gate = fail
    for line in ctx.mine(open(ctx.params["file"])):
        evs = json.loads(line)
        n = rng.choice([1, 2, 2, 3, 3, 4])
        terms, out, L = gen.network(rng, n, rng.randint(1, 6), max_rank=3, p_repeat=0.06, p_scalar=0.03, p_dup=0.1)
        sizes = {x: rng.choice([2, 2, 3, 3, 4]) for x in range(1, L + 1)}
        lab = gen.names_for(rng, L)
        eq = gen.eq_of(terms, out, lab)
        o = gen.rand_path(rng, n) if rng.random() < 0.4 else rng.choice(["auto", "greedy", "optimal", "dp", True])
        shapes = [tuple(sizes[x] for x in t) for t in terms]
        ctx.doing(("build", eq, shapes, str(o)))
        e = oe.contract_expression(eq, *shapes, optimize=o)
        meta0 = {"eq": eq, "shapes": shapes, "optimize": str(o), "history": evs}

        def emit(ops, r, i):
            inside = H.value(r)
            outside = H.value(ctx.call(lambda: oe.contract(eq, *ops, optimize=o)))
            ctx.emit({"k": "val", "ring": "mod", "typed": False, "ts": tensors_case(np, terms, ops, "mod"), "out": out, "inside": inside, "outside": outside},
                     dict(meta0, call=i, kind=evs[i], inside=inside, outside=outside, err=str(r)[:200] if r[0] != "ok" else ""))
        prev = None                 # (arrays, call, result) of the last call of a kind that can be repeated
        for i, kd in enumerate(evs):
            sz = dict(sizes)
            if kd in ("again", "change", "spoil"):
                if prev is None:
                    ops = fill(np, rng, terms, sizes)
                    b2 = rng.choice(["numpy", "auto", b])
                    fn = lambda ops=ops, b2=b2: e(*ops, backend=b2)
                    prev = (ops, fn, ctx.call(fn))
                ops, fn, res = prev
                if kd == "change":
                    a = ops[rng.randrange(n)]
                    if a.flags.writeable:
                        a[...] = rng.choice([a + 1, a * 2 + 3, fill(np, rng, [list(range(1, a.ndim + 1))], dict(enumerate(a.shape, 1)))[0]])
                elif kd == "spoil" and res[0] == "ok":
                    v = getattr(res[1], "a", res[1])
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v[...] = 5
                ctx.doing((eq, str(o), evs, i))
                res = ctx.call(fn)
                prev = (ops, fn, res)
                emit(ops, (res[0], getattr(res[1], "a", res[1])) if res[0] == "ok" else res, i)
                continue
            if kd == "sizes" or rng.random() < 0.2:
                sz = {x: rng.choice([1, 2, 3, 4, 5]) for x in sizes}
            ops = fill(np, rng, terms, sz)
            ctx.doing((eq, str(o), evs, i))
            if kd in ("plain", "sizes"):
                fn = lambda ops=ops: e(*ops)
                prev = (ops, fn, ctx.call(fn))
                emit(ops, prev[2], i)
            elif kd == "conv":
                fn = lambda ops=ops: e(*ops, backend=b)
                prev = (ops, fn, ctx.call(fn))
                emit(ops, prev[2], i)
            elif kd == "native":
                nat = [L_[b][0](a) for a in ops]
                emit(ops, ctx.call(lambda: L_[b][1](e(*nat, backend=rng.choice(["auto", b])))), i)
            elif kd == "rec":
                give = [A.array(a) for a in ops]
                fn = lambda give=give: e(*give)
                prev = ([g.a for g in give], fn, ctx.call(fn))
                emit(ops, (prev[2][0], prev[2][1].a) if prev[2][0] == "ok" else prev[2], i)
            elif kd == "share":
                with oe.shared_intermediates():
                    r1 = ctx.call(lambda: e(*ops))
                    r2 = ctx.call(lambda: e(*ops))
                emit(ops, r1, i)
                emit(ops, r2, i)
            elif kd == "out":
                buf = np.full([sz[x] for x in out], 7.5)
                if not out:
                    continue
                emit(ops, ctx.call(lambda: e(*ops, out=buf)), i)
            elif kd in ("few", "many"):
                m = rng.choice([n - 1, 0]) if kd == "few" else n + rng.choice([1, 2])
                give = (ops * 4)[:m]
                r = ctx.call(lambda: e(*give))
                ctx.emit({"k": "args", "out": "ok" if r[0] == "ok" else r[1], "msg": named(r, n), "n": n, "given": m}, dict(meta0, call=i, result=str(r)[:200]))
            elif kd == "boom":
                give = [A.array(a) for a in ops]
                fail.arm(rng.randint(1, n))
                ctx.call(lambda: e(*give))
                fail.arm(0)
            elif kd == "rank":
                give = list(ops)
                j = rng.randrange(n)
                give[j] = give[j][None] if rng.random() < 0.5 or not give[j].ndim else give[j].sum(0)
                ctx.call(lambda: e(*give))
            elif kd == "nested":
                # another call is made while the first is inside its first operation
                other = fill(np, rng, terms, sizes)
                got = {}

                def begin(op, other=other, got=got):
                    if "r" not in got:
                        got["r"] = None
                        got["r"] = ctx.call(lambda: e(*other))
                give = [A.array(a) for a in ops]
                A.gate = type("G", (), {"begin": staticmethod(begin), "end": staticmethod(lambda op: None)})
                r = ctx.call(lambda: e(*give).a)
                A.gate = fail
                emit(ops, r, i)
                if got.get("r"):
                    emit(other, got["r"], i)
        A.log.clear()


def plan(c):
    c.refuted("MC_Calls", "MC_CallsBad.cfg", "Pure")
    c.refuted("MC_Calls", "MC_CallsKeep.cfg", "Pure")
    r = c.model("MC_Calls", c.pick("MC_Calls.cfg", "MC_Calls4.cfg"), expect_min=5000)
    recs = c.record("spec", file=c.emitted(r, c.pick(None, 12000)))
    c.judge("T_Same", [r for r in recs if r["case"]["k"] == "val"], states_per=2, name="histories of the specification")
    c.judge("T_Args", [r for r in recs if r["case"]["k"] != "val"], states_per=2, name="refused calls in them")
    recs = c.record("hist", n=c.pick(1100, 12000))
    c.judge("T_Same", [r for r in recs if r["case"]["k"] == "val"], states_per=2, name="calls in a history against direct contraction")
    c.judge("T_Args", [r for r in recs if r["case"]["k"] != "val"], states_per=2, name="rejected calls and constructions")
    c.judge("T_Args", c.record("counts"), states_per=2, name="wrong numbers of arrays with constants")
    th = c.record("threads", none=True)
    c.notes.append("%d schedules of concurrent calls, with thread switches at chosen source lines, were executed" % sum(x["case"]["n"] for x in th if x["case"]["k"] == "note"))
    c.judge("T_Same", [x for x in th if x["case"]["k"] == "val"], states_per=2, name="concurrent calls")
    c.assumptions.append("every label has one size in a call (an expression built for equal sizes is not asked to broadcast)")
