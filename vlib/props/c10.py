"""C10: sharing never changes a result."""
import gc, itertools, json
from vlib import gen
from vlib.props.c01 import _np_to_case, tensors_case

BACK = ["numpy", "torch", "tensorflow", "jax"]


def one(np, rng, shape):
    """an array made as a single object, so that it gets the address of the one dropped before it"""
    a = np.empty(shape)
    a.flat = [rng.randint(0, 3) for _ in range(a.size)]
    return a


class Hist:
    def __init__(self, ctx, np):
        self.ctx, self.np = ctx, np
        self.runs = []           # (terms, out, contents, inside, fn, meta)
        self.say = []
        self.typed = False

    def value(self, res):
        np = self.np
        if res[0] != "ok":
            return {"k": "error", "e": res[1], "shape": [], "data": [], "type": ""}
        v = _np_to_case(np, res[1], "mod")
        if v is None:
            return {"k": "malformed", "e": "", "shape": [], "data": [], "type": ""}
        return {"k": "value", "e": "", "shape": v["shape"], "data": v["data"], "type": type(res[1]).__name__ if self.typed else ""}

    def run(self, terms, out, arrays, fn, what):
        """fn(arrays) performed now; repeated on copies, outside, at the end"""
        inside = self.value(self.ctx.call(lambda: fn(arrays)))
        self.runs.append((terms, out, [a.copy() for a in arrays], inside, fn, what))
        self.say.append(what)

    def finish(self, done):
        np = self.np
        for k, (terms, out, arrays, inside, fn, what) in enumerate(self.runs):
            key = json.dumps([terms, out, [a.tolist() for a in arrays], inside])
            if key in done:
                continue
            done.add(key)
            outside = self.value(self.ctx.call(lambda: fn(arrays)))
            self.ctx.emit({"ring": "mod", "typed": self.typed, "ts": tensors_case(np, terms, arrays, "mod"), "out": out, "inside": inside, "outside": outside},
                          {"failing run": k, "what": what, "history": self.say, "inside": inside, "outside": outside})


def rec_spec(ctx):
    """alloc/drop/open/close/op histories from MC_SharingHeap"""
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    back = BACK[ctx.shard % 4]
    done = set()
    E = {}
    for eq in ("ab->ba", "ab,bc->ac", "ab,cb->ca", "ab,bc->ca", "ab,ab->b", "ab->a", "aa->a"):
        n = eq.count(",") + 1
        E[eq] = oe.contract_expression(eq, *[(2, 2)] * n)
    gc.disable()

    def op(kind):
        eq = kind[1]
        n = eq.count(",") + 1
        ids = {}
        terms = [[ids.setdefault(ch, len(ids) + 1) for ch in t] for t in eq.split("->")[0].split(",")]
        out = [ids[ch] for ch in eq.split("->")[1]]
        if kind[0] == "contract":
            return terms, out, lambda ar: oe.contract(eq, *[ar[0]] * n)
        if kind[0] == "nopt":
            return terms, out, lambda ar: oe.contract(eq, *[ar[0]] * n, optimize=False)
        if kind[0] == "back":
            return terms, out, lambda ar: E[eq](*[ar[0]] * n, backend=back)
        return terms, out, lambda ar: E[eq](*[ar[0]] * n)
    kinds = [(a, eq) for a in ("contract", "nopt", "expr", "back", "back", "back") for eq in E]
    for i, line in enumerate(ctx.mine(open(ctx.params["file"]))):
        ctx.doing(line)
        ks = {k: op(rng.choice(kinds)) for k in range(1, 5)}
        h = Hist(ctx, np)
        var, caches, cms = {}, {}, []
        for e in json.loads(line):
            k, a, b = e["e"], e["a"], e["b"]
            h.say.append("%s %s %s" % (k, a, b))
            if k == "new":
                var[a] = None
                var[a] = np.array([[b, b + 1.], [2. * b, 7.]])
            elif k == "drop":
                var[a] = None
            elif k == "open":
                cm = oe.shared_intermediates(caches[a]) if a in caches else oe.shared_intermediates()
                caches[a] = cm.__enter__()
                cms.append(cm)
            elif k == "close" and cms:
                cms.pop().__exit__(None, None, None)
            elif k == "forget":
                caches.pop(a, None)
            elif k == "op" and var.get(a) is not None:
                terms, out, fn = ks[b]
                h.run(terms, out, [var[a]] * len(terms), fn, "op %s %s" % (terms, out))
        while cms:
            cms.pop().__exit__(None, None, None)
        h.finish(done)
        if i % 50 == 0:
            gc.collect()


def rec_rand(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    back = BACK[ctx.shard % 4]
    done = set()
    gc.disable()
    d = 2

    def fresh(r):
        return one(np, rng, (d,) * r)
    for it in range(ctx.share(ctx.pick(1000, 12000))):
        h = Hist(ctx, np)
        nv = 4
        rank = [rng.choice([1, 2, 2, 2, 3]) for _ in range(nv)]
        var = [fresh(r) for r in rank]
        # a few contractions on the variables, with relatives that share all but one detail
        tmpl = []
        for _ in range(rng.randint(2, 4)):
            n = rng.randint(1, 4)
            which = [rng.randrange(nv) for _ in range(n)]
            L = rng.randint(1, 5)
            terms = [[rng.randint(1, L) for _ in range(rank[v])] for v in which]
            used = sorted({x for t in terms for x in t})
            out = [x for x in used if rng.random() < 0.5]
            rng.shuffle(out)
            tmpl.append((which, terms, out, L))
            for _ in range(rng.randint(0, 3)):
                r = rng.random()
                if r < 0.3:          # other order of the output
                    o2 = list(out)
                    rng.shuffle(o2)
                    tmpl.append((which, terms, o2, L))
                elif r < 0.5:        # other order of the operands, same labels for each position
                    w2 = [v for v in which]
                    rng.shuffle(w2)
                    if [rank[v] for v in w2] == [rank[v] for v in which]:
                        tmpl.append((w2, terms, out, L))
                elif r < 0.7:        # operands and labels permuted together
                    p = list(range(n))
                    rng.shuffle(p)
                    tmpl.append(([which[i] for i in p], [terms[i] for i in p], out, L))
                elif r < 0.85:       # labels of one operand in another order
                    i = rng.randrange(n)
                    t2 = [list(t) for t in terms]
                    rng.shuffle(t2[i])
                    tmpl.append((which, t2, out, L))
                else:
                    tmpl.append((which, terms, [x for x in out if rng.random() < 0.6], L))
        exprs = {}
        caches, cms, open_ = [], [], []
        for _ in range(rng.randint(10, 30)):
            k = rng.choice(["run"] * 6 + ["drop", "drop", "open", "open", "close", "forget"])
            if k == "drop":
                v = rng.randrange(nv)
                var[v] = None
                var[v] = fresh(rank[v])
                h.say.append(("new", v))
            elif k == "open" and len(cms) < 3:
                c = rng.choice(caches) if caches and rng.random() < 0.6 else None
                cm = oe.shared_intermediates(c) if c is not None else oe.shared_intermediates()
                c2 = cm.__enter__()
                if c is None and rng.random() < 0.7:
                    caches.append(c2)
                cms.append(cm)
                h.say.append(("open", c is None))
            elif k == "close" and cms:
                cms.pop().__exit__(None, None, None)
                h.say.append("close")
            elif k == "forget" and caches:
                caches.pop(rng.randrange(len(caches)))
                h.say.append("forget")
            elif k == "run":
                ti = rng.randrange(len(tmpl))
                which, terms, out, L = tmpl[ti]
                names = gen.names_for(rng, L, rng.choice(["seq", "seq", "shuf", "uni"]))
                eq = gen.eq_of(terms, out, names)
                arrays = [var[v] for v in which]
                n = len(arrays)
                path = rng.choice(["auto", "greedy", "optimal", "dp", "auto", gen.rand_path(rng, n)]) if n > 1 else "auto"
                how = rng.choice(["contract"] * 4 + ["expr", "const", "back", "back", "back", "cback", "nopt", "out", "noblas", "dtype", "obj", "inter", "internopt", "implicit"])
                kw = {"optimize": path}
                if how == "contract":
                    fn = lambda ar, eq=eq, kw=kw: oe.contract(eq, *ar, **kw)
                elif how == "nopt":
                    fn = lambda ar, eq=eq: oe.contract(eq, *ar, optimize=False)
                elif how in ("inter", "internopt"):
                    def fn(ar, terms=terms, out=out, o=False if how == "internopt" else path):
                        args = []
                        for a, t in zip(ar, terms):
                            args += [a, list(t)]
                        return oe.contract(*args, list(out), optimize=o)
                elif how == "implicit":
                    # the same letters with the output left implicit: other meaning unless out is the sorted once-only labels
                    e2 = gen.eq_of(terms, None, names)
                    flat = [x for t in terms for x in t]
                    out = sorted((x for x in set(flat) if flat.count(x) == 1), key=lambda x: names[x - 1])
                    fn = lambda ar, e2=e2, kw=kw, o=rng.random() < 0.5: oe.contract(e2, *ar, **({"optimize": False} if o else kw))
                elif how == "noblas":
                    fn = lambda ar, eq=eq, kw=kw: oe.contract(eq, *ar, use_blas=False, **kw)
                elif how == "dtype":
                    fn = lambda ar, eq=eq, kw=kw: oe.contract(eq, *ar, use_blas=False, dtype="complex128", **kw)
                elif how == "obj":
                    fn = lambda ar, eq=eq, kw=kw: oe.contract(eq, *[a.astype(int).astype(object) for a in ar], backend="object", **kw).astype(float)
                elif how == "out":
                    def fn(ar, eq=eq, kw=kw, out=out):
                        o = np.empty((d,) * len(out))
                        oe.contract(eq, *ar, out=o, **kw)
                        return o
                elif how in ("const", "cback"):
                    # an expression that keeps some operands as constants; it may be built inside a context
                    def fn(ar, eq=eq, kw=kw, cs=rng.sample(range(n), rng.randint(1, n)), b=back if how == "cback" else None):
                        e = oe.contract_expression(eq, *[a if i in cs else a.shape for i, a in enumerate(ar)], constants=cs, **kw)
                        vs = [a for i, a in enumerate(ar) if i not in cs]
                        return e(*vs, backend=b) if b else e(*vs)
                else:
                    key = (ti, how)
                    if key not in exprs:
                        r = ctx.call(lambda: oe.contract_expression(eq, *[a.shape for a in arrays], **kw))
                        if r[0] != "ok":
                            raise RuntimeError(r)
                        exprs[key] = r[1]
                    fn = (lambda ar, e=exprs[key]: e(*ar)) if how == "expr" else (lambda ar, e=exprs[key]: e(*ar, backend=back))
                ctx.doing((how, eq, str(path), h.say[-10:]))
                h.run(terms, out, arrays, fn, (how, eq, str(path), which, back))
                arrays = None
        while cms:
            cms.pop().__exit__(None, None, None)
        h.finish(done)
        if it % 20 == 0:
            gc.collect()


def rec_family(ctx):
    """many contractions of the same few arrays that differ in one detail: which axes are paired, in which order, how the result is laid out"""
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    back = BACK[ctx.shard % 4]
    done = set()
    d = 2
    for it in range(ctx.share(ctx.pick(1200, 12000))):
        h = Hist(ctx, np)
        nv = rng.choice([1, 2, 2, 3])
        deep = rng.random() < 0.25      # three axes summed, in every pairing
        rank = [rng.choice([4, 4, 5] if deep else [2, 2, 3, 3, 4]) for _ in range(nv)]
        var = [np.array([rng.randint(0, 3) for _ in range(d ** r)], dtype=float).reshape((d,) * r) for r in rank]
        i, j = rng.randrange(nv), rng.randrange(nv)
        todo = []
        for _ in range(rng.randint(4, 9)):
            a, b = (i, j) if rng.random() < 0.6 else (j, i) if rng.random() < 0.6 else (rng.randrange(nv), rng.randrange(nv))
            ra, rb = rank[a], rank[b]
            k = 3 if deep else rng.randint(1, min(ra, rb))
            pa, pb = sorted(rng.sample(range(ra), k)), rng.sample(range(rb), k)
            if deep and rng.random() < 0.7:
                pa, pb = list(range(k)), rng.sample(range(k), k)
            ta = list(range(1, ra + 1))
            tb = [ra + 1 + x for x in range(rb)]
            for x, y in zip(pa, pb):
                tb[y] = ta[x]
            once = [x for x in ta + tb if (ta + tb).count(x) == 1]
            out = list(once)
            how = rng.random()
            if how < 0.4:
                rng.shuffle(out)
            elif how < 0.5 and once:
                out.remove(rng.choice(once))
            elif how < 0.6:
                out.append(rng.choice([ta[x] for x in pa]))
            elif how < 0.7 and len(once) > 1:
                # a repeated label
                x, y = rng.sample(once, 2)
                sub = lambda t: [x if z == y else z for z in t]
                ta, tb, out = sub(ta), sub(tb), [z for z in sub(out)]
                out = [z for n_, z in enumerate(out) if z not in out[:n_]]
            todo.append((a, b, ta, tb, out))
            if rng.random() < 0.3:
                todo.append(todo[rng.randrange(len(todo))])
        cm = oe.shared_intermediates()
        cache = cm.__enter__()
        for q, (a, b, ta, tb, out) in enumerate(todo):
            if rng.random() < 0.1:
                cm.__exit__(None, None, None)
                cm = oe.shared_intermediates(cache)
                cm.__enter__()
            L = max(ta + tb)
            names = gen.names_for(rng, L, rng.choice(["seq", "seq", "shuf", "uni"]))
            eq = gen.eq_of([ta, tb], out, names)
            how = rng.choice(["contract"] * 5 + ["noblas", "nopt", "back", "expr"])
            if how == "contract":
                fn = lambda ar, eq=eq: oe.contract(eq, *ar)
            elif how == "noblas":
                fn = lambda ar, eq=eq: oe.contract(eq, *ar, use_blas=False)
            elif how == "nopt":
                fn = lambda ar, eq=eq: oe.contract(eq, *ar, optimize=False)
            else:
                e = oe.contract_expression(eq, var[a].shape, var[b].shape)
                fn = (lambda ar, e=e: e(*ar, backend=back)) if how == "back" else (lambda ar, e=e: e(*ar))
            ctx.doing((eq, how, h.say[-8:]))
            h.run([ta, tb], out, [var[a], var[b]], fn, (how, eq, a, b))
        cm.__exit__(None, None, None)
        h.finish(done)


def rec_wrap(ctx):
    """the wrappers of opt_einsum.sharing around functions of a library, as contract uses them, with every form of axes"""
    import numpy as np
    import opt_einsum as oe
    from opt_einsum import sharing
    rng = ctx.rng
    if not all(hasattr(sharing, w) for w in ("transpose_cache_wrap", "tensordot_cache_wrap", "einsum_cache_wrap")):
        return
    # a second library that works on the same arrays and answers with arrays of its own class
    class Own(np.ndarray):
        pass
    as_ = lambda r, backend: np.asarray(r).view(Own) if backend == "other" else r
    tr = sharing.transpose_cache_wrap(lambda a, axes, backend="numpy": as_(np.transpose(a, axes), backend))
    td = sharing.tensordot_cache_wrap(lambda x, y, axes=2, backend="numpy": as_(np.tensordot(x, y, axes), backend))
    es = sharing.einsum_cache_wrap(lambda *a, **k: as_(np.einsum(*a, **{x: v for x, v in k.items() if x != "backend"}), k.get("backend")))
    done = set()
    gc.disable()
    d = 2
    for it in range(ctx.share(ctx.pick(600, 6000))):
        h = Hist(ctx, np)
        h.typed = True
        nv = 3
        own = rng.random() < 0.5

        def fresh(r):
            if own:
                return one(np, rng, (d,) * r)
            # views of arrays that stay
            return next(base[r])[1]
        rank = [rng.choice([1, 2, 2, 3, 3]) for _ in range(nv)]
        keep = {r: [np.array([rng.randint(0, 3) for _ in range(2 * d ** r)], dtype=float).reshape((2,) + (d,) * r) for _ in range(20)] for r in set(rank)}
        base = {r: itertools.cycle(b) for r, b in keep.items()}
        var = [fresh(r) for r in rank]
        caches, cms, asked = [], [], []
        for _ in range(rng.randint(10, 30)):
            k = rng.choice(["run"] * 6 + ["drop"] * 2 + ["open", "close"])
            if k == "drop":
                v = rng.randrange(nv)
                var[v] = None
                var[v] = fresh(rank[v])
                h.say.append(("new", v))
            elif k == "open" and len(cms) < 2:
                cm = oe.shared_intermediates(rng.choice(caches)) if caches and rng.random() < 0.6 else oe.shared_intermediates()
                caches.append(cm.__enter__())
                cms.append(cm)
                h.say.append("open")
            elif k == "close" and cms:
                cms.pop().__exit__(None, None, None)
                h.say.append("close")
            elif k == "run":
                a, b = rng.randrange(nv), rng.randrange(nv)
                f = rng.choice(["tr", "tr", "td", "td", "es", "es", "again", "again"])
                lib = rng.choice(["numpy", "numpy", "other"])
                if f == "again" and asked:           # an earlier einsum, with other names, perhaps in the other library
                    eq, terms, out, ops = rng.choice(asked)
                    eq = gen.eq_of(terms, out, gen.names_for(rng, 4, "shuf"))
                    fn = lambda ar, eq=eq, lib=lib: es(eq, *ar, backend=lib)
                    say = ("einsum", eq, ops, lib)
                elif f == "tr" or f == "again":
                    ax = list(range(rank[a]))
                    rng.shuffle(ax)
                    form = rng.choice([tuple, list])(ax)
                    terms, out, ops = [list(range(1, rank[a] + 1))], [x + 1 for x in ax], [a]
                    fn = lambda ar, form=form, lib=lib, kw=rng.random() < 0.5: tr(ar[0], axes=form, backend=lib) if kw or lib != "numpy" else tr(ar[0], form)
                    say = ("transpose", a, ax, lib)
                elif f == "td":
                    m = rng.randint(0, min(rank[a], rank[b]))
                    if rng.random() < 0.5:
                        pa, pb, form = list(range(rank[a] - m, rank[a])), list(range(m)), m
                    else:
                        pa, pb = rng.sample(range(rank[a]), m), rng.sample(range(rank[b]), m)
                        form = rng.choice([(list(pa), list(pb)), [tuple(pa), tuple(pb)]])
                    ta = list(range(1, rank[a] + 1))
                    tb = [10 + x for x in range(rank[b])]
                    for x, y in zip(pa, pb):
                        tb[y] = ta[x]
                    ids = {}
                    ta, tb = [[ids.setdefault(x, len(ids) + 1) for x in t] for t in (ta, tb)]
                    out = [x for i, x in enumerate(ta) if i not in pa] + [x for i, x in enumerate(tb) if i not in pb]
                    terms, ops = [ta, tb], [a, b]
                    fn = lambda ar, form=form, lib=lib, kw=rng.random() < 0.5: td(ar[0], ar[1], axes=form, backend=lib) if kw or lib != "numpy" else td(ar[0], ar[1], form)
                    say = ("tensordot", a, b, str(form), lib)
                else:
                    ops = [rng.randrange(nv) for _ in range(rng.randint(1, 3))]
                    terms = [[rng.randint(1, 4) for _ in range(rank[v])] for v in ops]
                    used = sorted({x for t in terms for x in t})
                    out = [x for x in used if rng.random() < 0.5]
                    rng.shuffle(out)
                    eq = gen.eq_of(terms, out, gen.names_for(rng, 4, "shuf"))
                    asked.append((eq, terms, out, ops))
                    fn = lambda ar, eq=eq, lib=lib, kw=rng.random() < 0.5: es(eq, *ar, backend=lib) if kw or lib != "numpy" else es(eq, *ar)
                    say = ("einsum", eq, ops, lib)
                ctx.doing((say, h.say[-8:]))
                h.run(terms, out, [var[v] for v in ops], fn, say)
        while cms:
            cms.pop().__exit__(None, None, None)
        h.finish(done)
        if it % 20 == 0:
            gc.collect()


def plan(c):
    c.model("MC_SharingHeap", expect_min=100000)
    c.refuted("MC_SharingHeap", "MC_SharingHeapNoPin.cfg", "NoFalseHit")
    r = c.model("MC_SharingHeap", "MC_SharingHeapEmit.cfg", expect_min=100000)
    good = lambda s: s.count('"op"') >= 2 and '"open"' in s
    f = c.emitted(r, c.pick(3000, 40000), keep=good)
    recs = c.record("spec", file=f)
    r = c.simulate("MC_SharingHeap", "MC_SharingHeapSim.cfg", c.pick(1500, 12000), 18)
    recs += c.record("spec", file=c.emitted(r, c.pick(1500, 12000), keep=good))
    c.judge("T_Same", recs, states_per=2, name="histories of the specification")
    c.judge("T_Same", c.record("rand"), states_per=2, name="random histories")
    c.judge("T_Same", c.record("family"), states_per=2, name="contractions of the same arrays that differ in one detail")
    c.judge("T_Same", c.record("wrap"), states_per=2, name="the wrappers themselves")
    c.assumptions.append("arrays are not modified in place while a cache holds results computed from them")
