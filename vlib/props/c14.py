"""C14: expressions with constants."""
import json
from vlib import gen
from vlib.props.c01 import tensors_case
from vlib.props.c10 import Hist, BACK


class Boom(Exception):
    pass


class FailAt:
    def __init__(self, lib):
        self.lib, self.at, self.n = lib, 0, 0

    def arm(self, k):
        self.at, self.n = k, 0

    def begin(self, op):
        self.n += 1
        if self.n == self.at:
            raise Boom("planned")

    def end(self, op):
        pass


def rand_expr(ctx, rng, np, maxn=5, d=(2, 3)):
    n = rng.randint(2, maxn)
    if maxn > 6 and rng.random() < 0.5:
        n = rng.randint(6, maxn)
    terms, out, L = gen.network(rng, n, rng.randint(2, 6) if n < 6 else n + 2, max_rank=3, p_repeat=0.05, p_scalar=0.02)
    sizes = {x: rng.choice(d) for x in range(1, L + 1)}
    names = gen.names_for(rng, L)
    k = rng.choice([1, 2, 2, 3, n, n - 1]) or 1
    consts = sorted(rng.sample(range(n), min(k, n)))
    if n >= 6:
        consts = sorted(rng.sample(range(n), rng.randint(1, n)))
        if rng.random() < 0.6:       # the constants among themselves first, one after the other
            p, c, m = [], list(consts), n
            while len(c) > 1 and rng.random() < 0.9:
                i, j = rng.sample(c, 2)
                p.append((i, j))
                c = [x - (x > i) - (x > j) for x in c if x not in (i, j)] + [m - 2]
                m -= 1
            while m > 1:
                p.append(tuple(rng.sample(range(m), 2)))
                m -= 1
        else:
            p = "greedy"
        return n, terms, out, L, {x: 2 for x in sizes}, gen.eq_of(terms, out, names), consts, p
    path = gen.rand_path(rng, n) if rng.random() < 0.6 else rng.choice(["greedy", "optimal", "dp", "auto"])
    if rng.random() < 0.5 and len(consts) >= 2 and n > 2:
        # contract constants with each other first
        p = [tuple(rng.sample(consts, 2))]
        m = n - 1
        while m > 1:
            p.append(tuple(rng.sample(range(m), 2)))
            m -= 1
        path = p
    return n, terms, out, L, sizes, gen.eq_of(terms, out, names), consts, path


def fill(np, rng, terms, sizes):
    return [np.array([rng.randint(0, 2) for _ in range(gen.prod(sizes[x] for x in t))], dtype=float).reshape([sizes[x] for x in t]) for t in terms]


def rec_spec(ctx):
    import numpy as np
    import opt_einsum as oe
    from vlib.reclib import Lib
    from vlib.threads import program
    rng = ctx.rng
    A = Lib("reclib")
    libs = {1: A}
    for b in range(2, ctx.params.get("libs", 2) + 1):
        libs[b] = Lib("reclib" + "xbcd"[b - 1], like=A)
        libs[b].serial = b * 10 ** 8
    for line in ctx.mine(open(ctx.params["file"])):
        n, terms, out, L, sizes, eq, consts, path = rand_expr(ctx, rng, np, ctx.params.get("maxn", 5))
        ctx.doing((eq, consts, str(path), line))
        base = [A.array(a) for a in fill(np, rng, terms, sizes)]
        prog = program(A, lambda *o: oe.contract(eq, *o, optimize=path), base)
        last = len(prog) - (2 if prog[-1]["kind"] == "transpose" else 1)
        e = oe.contract_expression(eq, *[base[i] if i in consts else base[i].shape for i in range(n)], constants=consts if rng.random() < 0.7 else set(consts), optimize=path)
        gates = {b: FailAt(l) for b, l in libs.items()}
        evs, vals = [], []
        for b, l in libs.items():
            l.gate = gates[b]
        for h in json.loads(line):
            b = h["b"]
            lib, gate = libs[b], gates[b]
            ops = [base[i] if i in consts or rng.random() < 0.3 else A.array(fill(np, rng, [terms[i]], sizes)[0]) for i in range(n)]
            k = len(lib.log)
            gate.arm(h["f"])
            if h["e"] == "eval":
                r = ctx.call(lambda: e.evaluate_constants(backend=lib.name))
            else:
                vs = [ops[i] for i in range(n) if i not in consts]
                r = ctx.call(lambda: e(*vs, backend=lib.name if b > 1 or not vs or rng.random() < 0.5 else "auto"))
            fault = gate.at and gate.n >= gate.at
            log = lib.log[k:]
            evs.append({"e": h["e"], "b": b, "leaves": [o.serial for o in ops], "fault": bool(fault), "out": "ok" if r[0] == "ok" else r[1],
                        "ops": [{"kind": o["kind"], "args": o["args"], "spec": o["spec"], "res": o["res"] or 0} for o in log]})
            if h["e"] == "call" and not fault:
                vals.append((ops, r))
        for l in libs.values():
            from vlib.reclib import Gate
            l.gate = Gate()
        meta = {"eq": eq, "constants": consts, "path": str(path), "history": line.strip()}
        ctx.emit({"k": "ops", "prog": prog, "consts": [i + 1 for i in consts], "last": last, "nback": len(libs), "evs": evs}, meta)
        H = Hist(ctx, np)
        for ops, r in vals:
            inside = H.value(("ok", r[1].a) if r[0] == "ok" and hasattr(r[1], "a") else r)
            outside = H.value(ctx.call(lambda: oe.contract(eq, *[o.a for o in ops], optimize=path)))
            ctx.emit({"k": "val", "ring": "mod", "typed": False, "ts": tensors_case(np, terms, [o.a for o in ops], "mod"), "out": out, "inside": inside, "outside": outside},
                     dict(meta, inside=inside, outside=outside))
        for l in libs.values():
            l.log.clear()


def rec_conv(ctx):
    """interleaved backends, NumPy and native arrays"""
    import numpy as np
    import opt_einsum as oe
    from vlib import libs
    rng = ctx.rng
    names = [["numpy", "torch"], ["numpy", "tensorflow"], ["numpy", "jax"], ["numpy", "torch", "tensorflow"]][ctx.shard % 4]
    L_ = libs.load(names)
    H = Hist(ctx, np)
    for _ in range(ctx.share(ctx.pick(480, 10000))):
        n, terms, out, L, sizes, eq, consts, path = rand_expr(ctx, rng, np, 4)
        base = fill(np, rng, terms, sizes)
        plain = rng.random() < 0.15         # constants given as numbers and nested lists (NumPy only)
        const = lambda a: a.tolist() if plain and rng.random() < 0.7 else a
        e = oe.contract_expression(eq, *[const(base[i]) if i in consts else base[i].shape for i in range(n)], constants=consts, optimize=path)
        hist = ["constants as lists"] if plain else []
        for _ in range(rng.randint(3, 8)):
            b = "numpy" if plain else rng.choice(names)
            if rng.random() < 0.2:
                r = ctx.call(lambda: e.evaluate_constants(backend=b))
                hist.append(("eval", b, r[0]))
                continue
            ops = [base[i] if i in consts else a for i, a in enumerate(fill(np, rng, terms, sizes))]
            vs = [ops[i] for i in range(n) if i not in consts]
            native = b != "numpy" and rng.random() < 0.4 and vs
            give = [L_[b][0](v) for v in vs] if native else vs
            o = np.empty([sizes[x] for x in out]) if rng.random() < 0.2 and not native and out else None
            ctx.doing((eq, consts, str(path), b, hist))
            kw = {} if o is None else {"out": o}
            r = ctx.call(lambda: e(*give, backend=b, **kw))
            hist.append(("call", b, "native" if native else "numpy", o is not None))
            want = {"numpy": "numpy", "torch": "torch", "tensorflow": "tensorflow", "jax": "jax"}[b] if native else "numpy"
            if r[0] == "ok":
                t = libs.typename(r[1]).split(".")[0]
                t = "jax" if t == "jaxlib" else t
                if o is not None and r[1] is not o:
                    t = "not-out"
                r = ("ok", L_[b][1](r[1]) if native else r[1])
            else:
                t = ""
            inside = dict(H.value(r), type=t)
            outside = dict(H.value(ctx.call(lambda: oe.contract(eq, *ops, optimize=path))), type=want)
            ctx.emit({"k": "val", "ring": "mod", "typed": True, "ts": tensors_case(np, terms, ops, "mod"), "out": out, "inside": inside, "outside": outside},
                     {"eq": eq, "constants": consts, "path": str(path), "history": list(hist), "inside": inside, "outside": outside})


def rec_threads(ctx):
    """concurrent first calls, switched at every source line"""
    import numpy as np
    import opt_einsum as oe
    from vlib import sched
    from vlib.reclib import Lib
    rng = ctx.rng
    H = Hist(ctx, np)
    A = Lib("reclib")
    none = ctx.params.get("none", False)         # without constants (C13)
    budget = ctx.pick(12, 400)
    done = set()
    INF = 10 ** 9
    while ctx.elapsed() < budget:
        n, terms, out, L, sizes, eq, consts, path = rand_expr(ctx, rng, np, 4)
        if none:
            consts = []
        back = rng.choice(["numpy", "numpy", "reclib"])
        conv = (lambda a: a) if back == "numpy" else A.array
        base = fill(np, rng, terms, sizes)
        cbase = [conv(a) for a in base]

        def build():
            return oe.contract_expression(eq, *[cbase[i] if i in consts else base[i].shape for i in range(n)], constants=consts, optimize=path)
        nt = rng.choice([2, 2, 3])
        ops = [[base[i] if i in consts else a for i, a in enumerate(fill(np, rng, terms, sizes))] for _ in range(nt)]
        backs = [back if back == "reclib" or rng.random() < 0.8 else "object" for _ in range(nt)]
        outs = [rng.random() < 0.3 for _ in range(nt)]
        ref = [H.value(ctx.call(lambda: oe.contract(eq, *o, optimize=path))) for o in ops]

        def fns(e):
            def one(t):
                vs = [conv(ops[t][i]) for i in range(n) if i not in consts]
                if backs[t] == "numpy" and out and outs[t]:
                    return lambda: e(*vs, backend="numpy", out=np.full([sizes[x] for x in out], 7.5))
                return lambda: e(*vs, backend=backs[t])
            return [one(t) for t in range(nt)]
        try:
            e0 = build()
        except Exception:
            continue
        total = sched.lines_of(fns(e0)[0])
        points = list(range(1, total + 1))
        rng.shuffle(points)
        for j, k in enumerate(points[:ctx.pick(60, 400)]):
            s = [(0, k), (1, INF)] if j % 2 == 0 else [(0, k), (1, rng.randint(1, total)), (0, rng.randint(1, total)), (nt - 1, rng.randint(1, total)), (1, INF)]
            e = build()
            ctx.doing((eq, consts, str(path), s))
            S = sched.Sched(fns(e), s)
            res = S.run()
            # afterwards, a further call
            again = ctx.call(fns(e)[0])
            for t, r in list(enumerate(res)) + [(0, again)]:
                if r[0] == "ok" and hasattr(r[1], "a"):
                    r = ("ok", r[1].a)
                inside = H.value(("ok", np.asarray(r[1], dtype=float)) if r[0] == "ok" else r)
                key = json.dumps([eq, [a.tolist() for a in ops[t]], inside])
                if key in done:
                    continue
                done.add(key)
                ctx.emit({"k": "val", "ring": "mod", "typed": False, "ts": tensors_case(np, terms, ops[t], "mod"), "out": out, "inside": inside, "outside": ref[t]},
                         {"eq": eq, "constants": consts, "path": str(path), "schedule": str(s), "thread": t, "inside": inside, "outside": ref[t]})
            ctx.n += 1
            A.log.clear()
            if ctx.elapsed() > budget:
                break
    ctx.emit({"k": "note", "n": ctx.n}, None)


def plan(c):
    c.model("MC_ExprThreads", expect_min=100)
    c.refuted("MC_ExprThreads", "MC_ExprThreadsBad.cfg", "Right")
    r = c.model("MC_Expr", c.pick("MC_Expr.cfg", "MC_ExprL.cfg"), expect_min=10000)
    recs = c.record("spec", file=c.emitted(r, c.pick(2500, 30000)))
    r = c.simulate("MC_Expr", "MC_ExprSim.cfg", c.pick(600, 8000), 14)
    recs += c.record("spec", file=c.emitted(r, c.pick(600, 8000)), libs=4, maxn=12)
    c.judge("T_Expr", [x for x in recs if x["case"]["k"] == "ops"], name="operations performed")
    vals = [x for x in recs if x["case"]["k"] == "val"] + c.record("conv")
    th = c.record("threads")
    n = sum(x["case"]["n"] for x in th if x["case"]["k"] == "note")
    c.notes.append("%d schedules with thread switches at chosen source lines of the expression's code were executed" % n)
    c.judge("T_Same", vals + [x for x in th if x["case"]["k"] == "val"], states_per=2, name="values")
