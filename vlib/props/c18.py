"""C18: out= is filled and returned; nothing else changes."""
import contextlib
from vlib import gen
from vlib.props.c01 import tensors_case, P


def digest(np, x, depth=0):
    """a string that changes whenever the object observably changes"""
    if isinstance(x, np.ndarray):
        b = x
        while isinstance(b.base, np.ndarray):
            b = b.base
        import hashlib
        return "A%s%s%s%s" % (x.dtype, x.shape, x.strides, hashlib.md5(np.ascontiguousarray(b).tobytes()).hexdigest())
    if isinstance(x, dict):
        return "D{%s}" % ",".join("%r:%s" % (k, digest(np, v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__, ",".join(digest(np, v) for v in x))
    if isinstance(x, (set, frozenset)):
        return "%s{%s}" % (type(x).__name__, ",".join(sorted(map(repr, x))))
    return repr(x)


class Own:
    """the caller's objects"""
    def __init__(self, np):
        self.np, self.named = np, []

    def add(self, name, x):
        self.named.append((name, x, digest(self.np, x)))
        return x

    def objs(self):
        return [{"name": n, "before": b, "after": digest(self.np, x)} for n, x, b in self.named]


def view_in(np, rng, buf, shape, kind=None):
    """a view of the given shape somewhere in the flat buffer, with odd strides; None if it does not fit"""
    size = buf.size
    kind = kind or rng.choice(["c", "f", "step", "rev", "perm", "whole"])
    n = gen.prod(shape)
    idx = np.arange(size)
    if kind == "whole":
        kind = "c"
    if kind == "c":
        off = rng.randint(0, size - n)
        return buf[off:off + n].reshape(shape), idx[off:off + n].reshape(shape)
    if kind in ("f", "perm"):
        perm = list(range(len(shape)))
        perm.reverse() if kind == "f" else rng.shuffle(perm)
        off = rng.randint(0, size - n)
        sh = [shape[p] for p in perm]
        inv = [perm.index(k) for k in range(len(shape))]
        return buf[off:off + n].reshape(sh).transpose(inv), idx[off:off + n].reshape(sh).transpose(inv)
    if kind == "step":
        big = [2 * d + 1 for d in shape]
        if gen.prod(big) > size:
            return buf[:n].reshape(shape), idx[:n].reshape(shape)
        sl = tuple(slice(1, 2 * d, 2) for d in shape) if shape else ()
        b, i = buf[:gen.prod(big)].reshape(big), idx[:gen.prod(big)].reshape(big)
        return b[sl + (Ellipsis,)], i[sl + (Ellipsis,)]
    sl = tuple(slice(None, None, -1) for _ in shape) + (Ellipsis,)
    return buf[:n].reshape(shape)[sl], idx[:n].reshape(shape)[sl]


def ints(a):
    return [int(v) % P for v in a.reshape(-1).tolist()]


def rec_out(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    torch = None
    for it in range(ctx.share(ctx.pick(3600, 30000))):
        dt = rng.choice(["float64", "float64", "int64", "float32"])
        size = rng.choice([40, 150, 300])
        buf = np.array([rng.randint(-9, -3) for _ in range(size)], dtype=dt)
        start = ints(buf)
        calls, metas = [], []
        exprs = []
        sharing = rng.random() < 0.3
        with (oe.shared_intermediates() if sharing else contextlib.nullcontext()):
            for _ in range(rng.randint(1, 3)):
                n = rng.randint(1, 5)
                terms, out, NL = gen.network(rng, n, rng.randint(1, 6), max_rank=3, p_repeat=0.06, p_scalar=0.05, p_dup=0.1, kind=rng.choice([None, "graph", "chain"]))
                sizes = {x: rng.choice([2, 2, 3, 1]) for x in range(1, NL + 1)}
                if rng.random() < 0.05 and NL:
                    sizes[rng.randint(1, NL)] = 0
                shape = [sizes[x] for x in out]
                if gen.prod(shape) > size:
                    continue
                odt = dt if rng.random() < 0.8 else {"float64": "float32", "int64": "int32", "float32": "float32"}[dt]
                data = [np.array([rng.choice([-1, 0, 1, 2]) for _ in range(gen.prod([sizes[x] for x in t]))], dtype=odt).reshape([sizes[x] for x in t]) for t in terms]
                # operands are also views now and then
                data = [np.asfortranarray(a) if a.ndim and rng.random() < 0.2 else a for a in data]
                if n > 1 and rng.random() < 0.15 and data[0].shape == data[1].shape:
                    data[1] = data[0]
                own = Own(np)
                ops = [own.add("operand", a) for a in data]
                view, idx = view_in(np, rng, buf, shape)
                # (the operands never overlap the buffer)
                hasout = rng.random() < 0.85
                names = gen.names_for(rng, NL)
                eq = gen.eq_of(terms, out, names)
                path = gen.rand_path(rng, n)
                r0 = rng.random()
                if r0 < 0.5:
                    opt = own.add("path", [list(s) for s in path] if rng.random() < 0.5 else list(path))
                elif r0 < 0.6:
                    opt = False
                else:
                    opt = rng.choice(["auto", "greedy", "dp", "optimal", "branch-1", True])
                blas = rng.random() < 0.7
                lim = None if rng.random() < 0.7 else rng.choice([-1, "max_input", 1000])
                kind = rng.choice(["contract", "contract", "expr", "inter", "const"])
                if opt is False and kind in ("expr", "const"):
                    opt = "auto"
                ctx.doing((eq, [a.shape for a in data], str(opt), kind, view.strides, hasout, sharing))
                kw = {"out": view} if hasout else {}
                if kind == "contract":
                    r = ctx.call(lambda: oe.contract(eq, *ops, optimize=opt, use_blas=blas, memory_limit=lim, **kw))
                elif kind == "inter":
                    args = []
                    for a, t in zip(ops, terms):
                        args += [a, own.add("sublist", list(t))]
                    args.append(own.add("sublist", list(out)))
                    r = ctx.call(lambda: oe.contract(*args, optimize=opt, use_blas=blas, memory_limit=lim, **kw))
                elif kind == "expr":
                    shp = [own.add("shape", list(a.shape)) if rng.random() < 0.3 and a.ndim else own.add("shape", tuple(a.shape)) for a in ops]
                    shl = own.add("shapes", shp)
                    back = rng.choice(["auto", "numpy", "torch"]) if ctx.shard == 0 and 0 not in shape and odt != "int32" else "auto"
                    r = ctx.call(lambda: oe.contract_expression(eq, *shl, optimize=opt, use_blas=blas, memory_limit=lim)(*ops, backend=back, **kw), 60)
                else:
                    cs = own.add("constants", sorted(rng.sample(range(n), rng.randint(1, n))))
                    e = ctx.call(lambda: oe.contract_expression(eq, *[a if i in cs else a.shape for i, a in enumerate(ops)], constants=cs, optimize=opt, use_blas=blas, memory_limit=lim))
                    r = e
                    if e[0] == "ok":
                        rest = own.add("arguments", [a for i, a in enumerate(ops) if i not in cs])
                        r = ctx.call(lambda: e[1](*rest))
                        if r[0] == "ok":
                            r = ctx.call(lambda: e[1](*rest, **kw))
                same = r[0] == "ok" and r[1] is view
                if hasout and r[0] == "ok" and r[1] is not view and isinstance(r[1], np.ndarray) and not isinstance(view, np.ndarray):
                    same = True
                calls.append({"e": "" if r[0] == "ok" else r[1], "hasout": hasout, "same": bool(same), "ts": tensors_case(np, terms, data, "mod"), "out": out, "ring": "mod", "big": n > 4,
                              "pos": [int(x) for x in idx.reshape(-1)], "after": ints(buf), "objs": own.objs()})
                metas.append({"eq": eq, "shapes": [list(a.shape) for a in data], "optimize": str(opt), "kind": kind, "use_blas": blas, "out_strides": list(view.strides), "out": hasout, "sharing": sharing, "result": str(r)[:150]})
        if calls:
            ctx.emit({"buffer": start, "calls": calls}, metas)


# contractions whose last operation is of the given kind (explicit path)
LAST = {"einsum": [("ab,ab->ab", [(0, 1)]), ("ab,bc,bd->bcd", [(0, 1), (0, 1)]), ("abc,bc->cb", [(0, 1)]), ("a,ab->ab", [(0, 1)])],
        "dot": [("ab,bc->ac", [(0, 1)]), ("ab,bc,cd->ad", [(0, 1), (0, 1)]), ("abc,bcd->ad", [(0, 1)]), ("ab,cbd->acd", [(0, 1)])],
        "dot-transposed": [("ab,bc->ca", [(0, 1)]), ("ab,cbd->dca", [(0, 1)]), ("ab,bc,cd->da", [(1, 2), (0, 1)]), ("abc,cd->bad", [(0, 1)])],
        "outer": [("a,b->ab", [(0, 1)]), ("ab,c->cab", [(0, 1)]), ("a,b,c->bca", [(0, 1), (0, 1)])],
        "unary": [("ab->ba", [(0,)]), ("abb->a", [(0,)]), ("aab->ba", [(0,)]), ("abc->c", [(0,)])],
        "copy": [("ab->ab", [(0,)]), ("abc->abc", [(0,)])],
        "many": [("ab,bc,cd->ad", [(0, 1, 2)]), ("ab,ab,ab->b", [(0, 1, 2)]), ("a,b,c->abc", [(0, 1, 2)])],
        "unoptimized": [("ab,bc->ac", False), ("ab,bc,cd->da", False), ("aab->b", False)]}
ZERO = {"einsum": [("aa,a->", [(0, 1)])], "dot": [("ab,ab->", [(0, 1)]), ("ab,bc,ca->", [(0, 1), (0, 1)])], "dot-transposed": [("ab,ba->", [(0, 1)])], "outer": [(",->", [(0, 1)])],
        "unary": [("ab->", [(0,)]), ("aa->", [(0,)])], "copy": [("->", [(0,)])], "many": [("ab,bc,ca->", [(0, 1, 2)])], "unoptimized": [("ab,ab->", False)]}


def rec_spec(ctx):
    """histories of MC_Frame"""
    import json
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for line in ctx.mine(open(ctx.params["file"])):
        dt = rng.choice(["float64", "float64", "int64"])
        buf = np.array([rng.randint(-9, -3) for _ in range(220)], dtype=dt)
        start = ints(buf)
        calls, metas = [], []
        evs = json.loads(line)
        for ev in evs:
            eq, path = rng.choice((ZERO if ev["v"] == "zero" else LAST)[ev["l"]])
            ids = {}
            terms = [[ids.setdefault(ch, len(ids) + 1) for ch in t] for t in eq.split("->")[0].split(",")]
            out = [ids[ch] for ch in eq.split("->")[1]]
            sizes = {x: rng.choice([2, 3, 2, 1]) for x in ids.values()}
            data = [np.array([rng.choice([-1, 0, 1, 2]) for _ in range(gen.prod([sizes[x] for x in t]))], dtype=dt).reshape([sizes[x] for x in t]) for t in terms]
            own = Own(np)
            ops = [own.add("operand", a) for a in data]
            view, idx = view_in(np, rng, buf, [sizes[x] for x in out], {"zero": "c"}.get(ev["v"], ev["v"]))
            opt = own.add("path", [tuple(q) for q in path]) if path else path
            entry = ev["e"]
            if opt is False and entry in ("expr", "const"):
                opt = "auto"
            ctx.doing((eq, str(opt), evs))
            if entry == "contract":
                r = ctx.call(lambda: oe.contract(eq, *ops, optimize=opt, out=view))
            elif entry == "inter":
                args = []
                for a, t in zip(ops, terms):
                    args += [a, own.add("sublist", list(t))]
                args.append(own.add("sublist", list(out)))
                r = ctx.call(lambda: oe.contract(*args, optimize=opt, out=view))
            elif entry == "expr":
                r = ctx.call(lambda: oe.contract_expression(eq, *[a.shape for a in ops], optimize=opt)(*ops, out=view))
            else:
                cs = own.add("constants", sorted(rng.sample(range(len(ops)), rng.randint(1, len(ops)))))
                r = ctx.call(lambda: oe.contract_expression(eq, *[a if i in cs else a.shape for i, a in enumerate(ops)], constants=cs, optimize=opt)(*[a for i, a in enumerate(ops) if i not in cs], out=view))
            calls.append({"e": "" if r[0] == "ok" else r[1], "hasout": True, "same": r[0] == "ok" and r[1] is view, "ts": tensors_case(np, terms, data, "mod"), "out": out, "ring": "mod", "big": False,
                          "pos": [int(x) for x in idx.reshape(-1)], "after": ints(buf), "objs": own.objs()})
            metas.append({"event": ev, "eq": eq, "sizes": sizes, "optimize": str(opt), "out_strides": list(view.strides), "result": str(r)[:150]})
        ctx.emit({"buffer": start, "calls": calls}, metas)


def rec_libs(ctx):
    """output arrays of other libraries: object arrays, torch tensors, a library whose einsum knows no out"""
    import numpy as np
    import opt_einsum as oe
    from vlib.reclib import Lib
    rng = ctx.rng
    kinds = ["object", "object", "rec"]
    if ctx.shard in (0, 3):
        import torch
        torch.set_num_threads(1)
        kinds = ["torch"]
    L = Lib("outlib", ("tensordot", "transpose", "einsum"), lenient=True)
    for it in range(ctx.share(ctx.pick(3200, 25000))):
        lib = rng.choice(kinds)
        dt = {"object": "object", "rec": "float64"}.get(lib) or rng.choice(["float64", "int64", "float32"])
        buf = np.array([rng.randint(-9, -3) for _ in range(200)], dtype=dt)
        start, calls, metas = ints(buf), [], []
        sharing = rng.random() < 0.3
        wrap = {"object": lambda a: a, "torch": lambda a: torch.from_numpy(a), "rec": L.array}[lib]
        with (oe.shared_intermediates() if sharing else contextlib.nullcontext()):
            for _ in range(rng.randint(1, 3)):
                n = rng.randint(1, 4)
                terms, out, NL = gen.network(rng, n, rng.randint(1, 5), max_rank=3, p_repeat=0.06, p_scalar=0.05, p_dup=0.1, kind=rng.choice([None, "graph", "chain"]))
                sizes = {x: rng.choice([2, 2, 3, 1]) for x in range(1, NL + 1)}
                shape = [sizes[x] for x in out]
                if gen.prod(shape) > 200:
                    continue
                data = [np.array([rng.choice([-1, 0, 1, 2]) for _ in range(gen.prod([sizes[x] for x in t]))], dtype=dt).reshape([sizes[x] for x in t]) for t in terms]
                own = Own(np)
                ops = [wrap(own.add("operand", a)) for a in data]
                view, idx = view_in(np, rng, buf, shape, rng.choice(["c", "f", "step", "perm"]))
                view = wrap(view)
                hasout = rng.random() < 0.9
                eq = gen.eq_of(terms, out, gen.names_for(rng, NL))
                r0 = rng.random()
                opt = own.add("path", list(gen.rand_path(rng, n))) if r0 < 0.5 else False if r0 < 0.65 else rng.choice(["auto", "greedy", "dp", "optimal", True])
                kind = rng.choice(["contract", "contract", "expr", "inter", "const"])
                if kind in ("expr", "const"):
                    opt = opt or "auto"
                    if lib == "rec" and kind == "const":
                        kind = "expr"
                kw = {"out": view} if hasout else {}
                if lib == "object" or rng.random() < 0.4:
                    kw["backend"] = {"rec": "outlib"}.get(lib, lib)
                ctx.doing((lib, eq, [a.shape for a in data], str(opt), kind, hasout, sharing))
                if kind == "contract":
                    r = ctx.call(lambda: oe.contract(eq, *ops, optimize=opt, **kw))
                elif kind == "inter":
                    args = []
                    for a, t in zip(ops, terms):
                        args += [a, own.add("sublist", list(t))]
                    r = ctx.call(lambda: oe.contract(*args, own.add("sublist", list(out)), optimize=opt, **kw))
                elif kind == "expr":
                    r = ctx.call(lambda: oe.contract_expression(eq, *[a.shape for a in data], optimize=opt)(*ops, **kw))
                else:
                    cs = sorted(rng.sample(range(n), rng.randint(1, n - 1))) if n > 1 else []
                    r = ctx.call(lambda: oe.contract_expression(eq, *[a if i in cs else a.shape for i, a in enumerate(data)], constants=cs, optimize=opt)(*[a for i, a in enumerate(ops) if i not in cs], **kw))
                calls.append({"e": "" if r[0] == "ok" else r[1], "hasout": hasout, "same": r[0] == "ok" and r[1] is view, "ts": tensors_case(np, terms, [a.astype("int64") for a in data], "mod"), "out": out, "ring": "mod", "big": False,
                              "pos": [int(x) for x in idx.reshape(-1)], "after": ints(buf), "objs": own.objs()})
                metas.append({"library": lib, "eq": eq, "shapes": [list(a.shape) for a in data], "optimize": str(opt), "kind": kind, "out": hasout, "sharing": sharing, "result": str(r)[:150]})
        if calls:
            ctx.emit({"buffer": start, "calls": calls}, metas)


def rec_paths(ctx):
    """path finding: arrays, shapes, sizes, lists and dictionaries given are left alone"""
    import numpy as np
    import opt_einsum as oe
    from opt_einsum import paths as pth
    from opt_einsum.path_random import RandomGreedy
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(2500, 25000))):
        n = rng.randint(2, 6)
        terms, out, NL = gen.network(rng, n, rng.randint(1, 7), max_rank=4, p_repeat=0.05, p_scalar=0.08, p_dup=0.15)
        sizes = {x: rng.choice([1, 2, 3, 5, 0]) if rng.random() < 0.1 else rng.choice([2, 3]) for x in range(1, NL + 1)}
        names = gen.names_for(rng, NL)
        own = Own(np)
        mode = rng.choice(["path", "shapes", "direct", "direct", "ssa", "helpers"])
        eq = gen.eq_of(terms, out, names)
        lim = rng.choice([None, None, 4, 20])
        name = rng.choice(["optimal", "greedy", "dp", "branch-all", "branch-1", "random-greedy", "auto", "auto-hq"])
        ctx.doing((eq, mode, name))
        if mode == "path":
            ops = own.add("operands", [np.zeros([sizes[x] for x in t]) for t in terms])
            r = ctx.call(lambda: oe.contract_path(eq, *ops, optimize=name, memory_limit=lim))
            if r[0] == "ok":
                p = own.add("path", [list(s) for s in r[1][0]])
                r = ctx.call(lambda: oe.contract_path(eq, *ops, optimize=p))
                r = ctx.call(lambda: str(r[1][1])) if r[0] == "ok" else r
        elif mode == "shapes":
            shp = own.add("shapes", [[sizes[x] for x in t] for t in terms])
            r = ctx.call(lambda: oe.contract_path(eq, *shp, optimize=name, memory_limit=lim, shapes=True))
        elif mode == "direct":
            inputs = own.add("inputs", [frozenset(names[x - 1] for x in t) for t in terms] if rng.random() < 0.5 else [set(names[x - 1] for x in t) for t in terms] if name not in ("random-greedy",) else [frozenset(names[x - 1] for x in t) for t in terms])
            o = own.add("output", frozenset(names[x - 1] for x in out))
            sd = own.add("size_dict", {names[x - 1]: s for x, s in sizes.items()})
            f = {"optimal": pth.optimal, "greedy": pth.greedy, "dp": pth.dynamic_programming, "branch-all": pth.branch, "branch-1": lambda *a: pth.branch(*a, nbranch=1),
                 "random-greedy": RandomGreedy(max_repeats=3), "auto": pth.auto, "auto-hq": pth.auto_hq}[name]
            if name == "random-greedy":
                r = ctx.call(lambda: f(inputs, o, sd, lim))
            else:
                r = ctx.call(lambda: f(inputs, o, sd, lim))
        elif mode == "ssa":
            m = max(n, 2)
            lin = own.add("path", [tuple(s) for s in gen.rand_path(rng, m, 2)] if rng.random() < 0.5 else [list(s) for s in gen.rand_path(rng, m, 2)])
            r = ctx.call(lambda: pth.linear_to_ssa(lin))
            if r[0] == "ok":
                ssa = own.add("ssa path", [tuple(s) for s in r[1]])
                r = ctx.call(lambda: pth.ssa_to_linear(ssa))
        else:
            sets = own.add("inputs", [frozenset(t) for t in terms])
            sd = own.add("size_dict", dict(sizes))
            pos = own.add("positions", rng.sample(range(n), 2))
            r = ctx.call(lambda: (oe.helpers.find_contraction(pos, sets, frozenset(out)), oe.helpers.compute_size_by_dict(out, sd), oe.helpers.flop_count(out, True, 2, sd)))
        e = "" if r[0] == "ok" else r[1]
        if e == "RuntimeError" and lim is not None and name in ("dp", "auto-hq"):
            e = ""
        ctx.emit({"buffer": [], "calls": [{"e": e, "hasout": False, "same": False, "ts": [], "out": [], "ring": "mod", "big": False, "pos": [], "after": [], "objs": own.objs()}]},
                 {"eq": eq, "mode": mode, "optimizer": name, "limit": str(lim), "result": str(r)[:200]})


def plan(c):
    n = lambda recs: sum(1 + len(r["case"]["calls"]) for r in recs)
    c.model("MC_Frame", expect_min=10000)
    c.refuted("MC_Frame", "MC_FrameFlat.cfg", "OthersUntouched")
    r = c.model("MC_Frame", "MC_FrameEmit.cfg", expect_min=50000)
    c.judge("T_Frame", c.record("spec", file=c.emitted(r, c.pick(4000, 30000))), states_per=n, name="histories of the specification")
    c.judge("T_Frame", c.record("out"), states_per=n, name="histories of calls with output arrays")
    c.judge("T_Frame", c.record("libs"), states_per=n, name="output arrays of other libraries")
    c.judge("T_Frame", c.record("paths"), states_per=n, name="arguments of path finding")
    c.assumptions.append("out never overlaps an operand")
