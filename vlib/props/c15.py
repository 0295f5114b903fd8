"""C15: choice of the library and what it hands back."""
from vlib import gen
from vlib.props.c01 import _np_to_case, tensors_case
from vlib.props.c14 import fill


def rec_disp(ctx):
    import sys, types
    import numpy as np
    import opt_einsum as oe
    from vlib.reclib import Lib
    rng = ctx.rng
    T = ("tensordot", "transpose", "einsum")
    spec = {"recla": T, "reclb": T, "reclc": ("tensordot", "transpose"), "recle": ("tensordot", "einsum"), "reclf": ("tensordot",)}
    L = {n: Lib(n, f, cls_module=n + (".sub.core" if n in ("reclb", "reclf") else ""), lenient=True) for n, f in spec.items()}

    class Plain(np.ndarray):
        """arrays of a library that has no tensordot"""
    Plain.__module__ = "recld.arrays"
    m = types.ModuleType("recld")
    m.einsum = lambda *a, **k: (_ for _ in ()).throw(RuntimeError("recld.einsum must not be used"))
    sys.modules["recld"] = m
    funcs = {n: list(f) for n, f in spec.items()}
    funcs.update({"recld": ["einsum"], "numpy": list(T)})
    for _ in range(ctx.share(ctx.pick(2500, 25000))):
        n = rng.randint(2, 5) if rng.random() < 0.9 else 1
        kind = rng.choice(["graph", "chain", "graph", None])
        terms, out, NL = gen.network(rng, n, rng.randint(1, 6), max_rank=3, kind=kind, p_scalar=0.0, p_repeat=0.03)
        sizes = {x: rng.choice([2, 2, 3]) for x in range(1, NL + 1)}
        names = gen.names_for(rng, NL)
        eq = gen.eq_of(terms, out, names)
        data = fill(np, rng, terms, sizes)
        first = rng.choice(list(spec) + ["recld", "numpy"])

        def wrap(lib, a):
            return a if lib == "numpy" else a.view(Plain) if lib == "recld" else L[lib].array(a)
        mixed = rng.random() < 0.3 and first in L
        ops = [wrap(rng.choice(list(spec)) if mixed and i else first, a) for i, a in enumerate(data)]
        arg = rng.choice(["auto", "auto", "auto", None, "named"])
        if arg == "named":
            arg = rng.choice(list(spec) + ["numpy", "numpy"]) if first in L else ("numpy" if first in ("numpy", "recld") else first)
        for l in L.values():
            l.log.clear()
        path = rng.choice(["auto", "greedy", "optimal", "dp"]) if rng.random() < 0.6 else gen.rand_path(rng, n, 2)
        expr = rng.random() < 0.5
        chosen = (first if "tensordot" in funcs[first] else "numpy") if arg in ("auto", None) else arg
        if not expr and "einsum" in funcs[chosen] and rng.random() < 0.3:
            path = False
        ctx.doing((eq, first, arg, str(path)))
        if expr:
            e = oe.contract_expression(eq, *[a.shape for a in data], optimize=path)
            r = ctx.call(lambda: e(*ops, backend=arg))
        else:
            r = ctx.call(lambda: oe.contract(eq, *ops, backend=arg, optimize=path))
        used = sorted(x for x, l in L.items() if l.log)
        # does some label not connect exactly two places? then a library without einsum may be unable to do it
        cnt = {x: sum(t.count(x) for t in terms) + out.count(x) for x in range(1, NL + 1)}
        needs = n == 1 or any(v != 2 for v in cnt.values()) or any(len(set(t)) < len(t) for t in terms) or path is False or any(len(s) == 1 for s in path if not isinstance(path, str))
        case = {"k": "disp", "funcs": funcs, "first": first, "arg": "None" if arg is None else arg, "used": used, "needs": bool(needs), "e": "" if r[0] == "ok" else r[1],
                "ts": tensors_case(np, terms, data, "mod"), "out": out, "restype": "", "numpytype": "numpy", "shape": [], "data": []}
        if r[0] == "ok":
            x = r[1]
            case["restype"] = type(x).__module__.split(".")[0]
            if isinstance(x, (np.ndarray, np.generic)):
                case["restype"] = "numpy"
            v = _np_to_case(np, getattr(x, "a", x), "mod")
            if v:
                case.update(v)
        ctx.emit(case, {"eq": eq, "path": str(path), "first": first, "mixed": mixed, "backend": arg, "expression": expr, "used": used, "result": str(r)[:200]})


DOT = ["ab,bc->ca", "abc,bd->dca", "ab,cb->ca", "ab,bc,cd->da"]
EIN = ["ab,ab->ab", "ab,ab->b", "aab,b->a", "ab,bc,bd->acd"]
BOTH = [("ab,ab,bc->ca", [(0, 1), (0, 1)]), ("aab,bc->ca", [(0,), (0, 1)]), ("ab,b,bc->ca", [(0, 1), (0, 1)])]


def rec_spec(ctx):
    """histories of MC_Backend, each with libraries never seen before"""
    import json, sys, types
    import numpy as np
    import opt_einsum as oe
    from vlib.reclib import Lib
    rng = ctx.rng
    T = ("tensordot", "transpose", "einsum")
    for h, line in enumerate(ctx.mine(open(ctx.params["file"]))):
        evs = json.loads(line)
        nm = {k: "h%dx%d%s" % (ctx.shard, h, k) for k in ("full", "full2", "noein", "nodot")}
        nm["numpy"] = "numpy"
        L = {nm["full"]: Lib(nm["full"], T, lenient=True), nm["full2"]: Lib(nm["full2"], T, cls_module=nm["full2"] + ".sub.core", lenient=True),
             nm["noein"]: Lib(nm["noein"], T[:2], lenient=True)}

        class Plain(np.ndarray):
            """arrays of a library that has no tensordot"""
        Plain.__module__ = nm["nodot"] + ".arrays"
        m = types.ModuleType(nm["nodot"])
        m.einsum = lambda *a, **k: (_ for _ in ()).throw(RuntimeError("this einsum must not be used"))
        sys.modules[nm["nodot"]] = m
        funcs = {nm["full"]: T, nm["full2"]: T, nm["noein"]: T[:2], nm["nodot"]: ["einsum"], "numpy": T}
        say = []
        for ev in evs:
            first, arg, need = nm[ev["first"]], ev["arg"], ev["need"]
            arg = None if arg == "None" else nm.get(arg, arg)
            if need == "both":
                eq, path = rng.choice(BOTH)
            else:
                eq = rng.choice(DOT if need == "dot" else EIN)
                path = rng.choice(["auto", "greedy", "optimal"]) if need == "dot" else "auto"
            ids = {}
            terms = [[ids.setdefault(ch, len(ids) + 1) for ch in t] for t in eq.split("->")[0].split(",")]
            out = [ids[ch] for ch in eq.split("->")[1]]
            data = fill(np, rng, terms, {x: rng.choice([2, 3]) for x in ids.values()})
            ops = [a if first == "numpy" else a.view(Plain) if first == nm["nodot"] else L[first].array(a) for a in data]
            for l in L.values():
                l.log.clear()
            ctx.doing((evs, eq))
            expr = rng.random() < 0.5
            chosen = (first if "tensordot" in funcs[first] else "numpy") if arg in ("auto", None) else arg
            if not expr and "einsum" in funcs.get(chosen, ()) and rng.random() < 0.25:
                path = False
            if expr:
                e = oe.contract_expression(eq, *[a.shape for a in data], optimize=path)
                r = ctx.call(lambda: e(*ops, backend=arg) if arg != "auto" or rng.random() < 0.5 else e(*ops))
            else:
                r = ctx.call(lambda: oe.contract(eq, *ops, backend=arg, optimize=path))
            used = sorted(x for x, l in L.items() if l.log)
            say.append((ev["first"], ev["arg"], eq, expr))
            case = {"k": "disp", "funcs": funcs, "first": first, "arg": "None" if arg is None else arg, "used": used, "needs": need != "dot", "e": "" if r[0] == "ok" else r[1],
                    "ts": tensors_case(np, terms, data, "mod"), "out": out, "restype": "", "numpytype": "numpy", "shape": [], "data": []}
            if r[0] == "ok":
                x = r[1]
                case["restype"] = "numpy" if isinstance(x, (np.ndarray, np.generic)) else type(x).__module__.split(".")[0]
                v = _np_to_case(np, getattr(x, "a", x), "mod")
                if v:
                    case.update(v)
            ctx.emit(case, {"history": list(say), "used": used, "result": str(r)[:200]})
        for k, v in nm.items():
            if k != "numpy":
                sys.modules.pop(v, None)


def rec_real(ctx):
    import numpy as np
    import opt_einsum as oe
    from vlib import libs
    rng = ctx.rng
    name = ["torch", "tensorflow", "jax", "sparse", "torch", "dask", "jax", "autograd"][ctx.shard % 8]
    mk, back_ = libs.load([name])[name]
    conv = name in ("torch", "tensorflow", "jax")
    N = ctx.pick({"dask": 60, "sparse": 120, "jax": 80}.get(name, 350), {"dask": 600, "jax": 900}.get(name, 4000))
    exprs = {}
    for it in range(N):
        n = rng.randint(1 if conv else 2, 4)
        terms, out, NL = gen.network(rng, n, rng.randint(1, 6), max_rank=3, p_repeat=0.08 if conv else 0.0, p_scalar=0.02 if conv else 0.0, p_dup=0.1, kind=None if conv else rng.choice(["graph", "chain"]))
        pool = [2, 2, 3] if not conv or rng.random() < 0.8 else [0, 1, 2, 3]
        sizes = {x: rng.choice(pool) for x in range(1, NL + 1)}
        dt = rng.choice(["float64", "float64", "float32", "complex128", "int64"] if conv else ["float64"])
        data = [a.astype(dt) for a in fill(np, rng, terms, sizes)]
        if dt == "complex128":
            data = [np.asarray(a + 1j * np.array([rng.randint(-1, 2) for _ in range(a.size)]).reshape(a.shape)) for a in data]
        if rng.random() < 0.3:
            data = [np.asfortranarray(a) if a.ndim > 1 else a for a in data]
        path = rng.choice(["auto", "greedy", "optimal", "dp"]) if rng.random() < 0.6 else gen.rand_path(rng, n, 2)
        # explicit single-operand steps and labels on one operand only need an einsum of the library itself
        if not conv:
            cnt = {x: sum(t.count(x) for t in terms) + out.count(x) for x in range(1, NL + 1)}
            if any(v != 2 for v in cnt.values()) or any(len(s) == 1 for s in path if not isinstance(path, str)) or not all(terms):
                continue
        labs = gen.names_for(rng, NL)
        eq = gen.eq_of(terms, out, labs)
        native = not conv or rng.random() < 0.5
        expr = rng.random() < 0.6 if native else True
        give = [mk(a) for a in data] if native else data
        arg = name if not native or name == "autograd" else rng.choice([name, "auto"])
        consts = []
        if expr and conv and rng.random() < 0.35:            # constants are NumPy arrays, whatever is passed later
            consts = sorted(rng.sample(range(n), rng.randint(1, n)))
            if len(consts) == n:
                native, arg = False, name
        if name == "jax" and dt in ("float64", "float32") and n > 1 and rng.random() < 0.4:      # types that differ
            other = "complex128" if dt == "float64" and rng.random() < 0.5 else "float32" if dt == "float64" else "float64"
            for i in rng.sample(range(n), rng.randint(1, n - 1)):
                data[i] = data[i].astype(other)
            dt = str(np.result_type(*data))
            give = [mk(a) for a in data] if native else data
        if not expr and conv and rng.random() < 0.3:
            path = False
        given = [("numpy" if not native or name == "autograd" else name) for i in range(n) if i not in consts]
        ctx.doing((name, eq, [a.shape for a in data], str(path), dt, native, consts))
        if expr:
            e = oe.contract_expression(eq, *[a if i in consts else a.shape for i, a in enumerate(data)], constants=consts, optimize=path)
            vs = [a for i, a in enumerate(give) if i not in consts]
            r = ctx.call(lambda: e(*vs, backend=arg), 60)
        else:
            r = ctx.call(lambda: oe.contract(eq, *give, backend=arg, optimize=path), 60)
        ring = "gauss" if dt == "complex128" else "mod"
        case = {"k": "res", "back": "numpy" if name == "autograd" else name, "given": given, "dtype": dt, "resdtype": "", "restype": "", "e": "" if r[0] == "ok" else r[1],
                "ring": ring, "ts": tensors_case(np, terms, data, ring), "out": out, "malformed": False, "shape": [], "data": []}
        if r[0] == "ok":
            x = r[1]
            t = type(x).__module__.split(".")[0]
            case["restype"] = "jax" if t == "jaxlib" else t
            r2 = ctx.call(lambda: np.asarray(back_(x)) if native else np.asarray(x))
            if r2[0] == "ok":
                case["resdtype"] = str(r2[1].dtype)
                v = _np_to_case(np, r2[1], ring)
                case.update(v if v else {"malformed": True})
            else:
                case["e"] = r2[1]
        ctx.emit(case, {"library": name, "eq": eq, "shapes": [list(a.shape) for a in data], "path": str(path), "dtype": dt, "native": native, "constants": consts, "expression": expr, "backend": arg, "result": str(r)[:300]})


def rec_modes(ctx):
    """torch without a tensordot of its own, tensorflow in graph mode, stand-ins for cupy and theano (NumPy arrays in, NumPy arrays out)"""
    import sys, types
    import numpy as np
    rng = ctx.rng
    stack = []
    from vlib import fakes
    if ctx.shard == 4:
        name = "cupy"
        fakes.cupy()
    elif ctx.shard == 6:
        name = "theano"
        fakes.theano()
    elif ctx.shard % 2 == 0:
        name = "torch"
        import torch
        torch.set_num_threads(1)

        class Old(types.ModuleType):
            def __getattr__(self, k):
                if k == "tensordot":
                    raise AttributeError(k)
                return getattr(torch, k)
        sys.modules["torch"] = Old("torch")
    else:
        name = "tensorflow"
        import tensorflow.compat.v1 as tf1
        tf1.disable_eager_execution()
        sys.modules["tensorflow"] = tf1
        stack.append(tf1.Session())
        stack[0].__enter__()
    import opt_einsum as oe
    N = ctx.pick(120 if name == "tensorflow" else 300, 500 if name == "tensorflow" else 2500)
    for it in range(N):
        n = rng.randint(1, 5)
        if name == "theano":             # no einsum: labels in two places each
            n = max(n, 2)
            terms, out, NL = gen.network(rng, n, rng.randint(1, 7), max_rank=4, p_repeat=0, p_scalar=0, p_dup=0, kind=rng.choice(["graph", "chain"]))
            if any((sum(t.count(x) for t in terms) + out.count(x) != 2) for x in range(1, NL + 1)) or not all(terms):
                continue
        else:
            terms, out, NL = gen.network(rng, n, rng.randint(1, 7), max_rank=4, p_repeat=0.08, p_scalar=0.02, p_dup=0.1)
        if rng.random() < 0.3 and n > 1 and name != "theano":    # operands of the same shape
            k = rng.randrange(1, n)
            perm = list(terms[0])
            rng.shuffle(perm)
            terms[k] = perm
            used = {x for t in terms for x in t}
            out = [x for x in out if x in used]
        sizes = {x: rng.choice([2, 2, 3]) for x in range(1, NL + 1)}
        if rng.random() < 0.5:
            sizes = {x: 2 for x in sizes}
        eq = gen.eq_of(terms, out, gen.names_for(rng, NL))
        path = rng.choice(["auto", "greedy", "optimal", "dp"]) if rng.random() < 0.5 else gen.rand_path(rng, n, 2)
        if name == "theano" and any(len(s) == 1 for s in path if not isinstance(path, str)):
            continue
        consts = sorted(i for i in range(n) if rng.random() < 0.35)
        fixed = fill(np, rng, terms, sizes)
        ctx.doing((name, eq, sizes, str(path), consts))
        e = oe.contract_expression(eq, *[fixed[i] if i in consts else fixed[i].shape for i in range(n)], constants=consts, optimize=path)
        share = rng.random() < 0.4
        live, hist = [], []
        for call in range(rng.randint(1, 3)):
            data = [fixed[i] if i in consts else a for i, a in enumerate(fill(np, rng, terms, sizes))]
            same = [(i, j) for j in range(n) for i in range(j) if i not in consts and j not in consts and data[i].shape == data[j].shape]
            if same and rng.random() < 0.6:
                i, j = rng.choice(same)
                data[j] = data[i]
            live.append(data)
            args = [data[i] for i in range(n) if i not in consts]
            sh = share and rng.random() < 0.7

            def go():
                if sh:
                    with oe.shared_intermediates():
                        return e(*args, backend=name)
                return e(*args, backend=name)
            r = ctx.call(go)
            hist.append("shared" if sh else "plain")
            case = {"k": "res", "back": name, "given": ["numpy"] * (n - len(consts)), "dtype": "float64", "resdtype": "", "restype": "", "e": "" if r[0] == "ok" else r[1],
                    "ring": "mod", "ts": tensors_case(np, terms, data, "mod"), "out": out, "malformed": False, "shape": [], "data": []}
            if r[0] == "ok":
                x = r[1]
                case["restype"] = type(x).__module__.split(".")[0]
                r2 = ctx.call(lambda: np.asarray(x))
                if r2[0] == "ok":
                    case["resdtype"] = str(r2[1].dtype)
                    v = _np_to_case(np, r2[1], "mod")
                    case.update(v if v else {"malformed": True})
                else:
                    case["e"] = r2[1]
            ctx.emit(case, {"library": name, "mode": {"torch": "no tensordot", "tensorflow": "graph"}.get(name, "stand-in"), "eq": eq, "shapes": [list(a.shape) for a in data], "path": str(path), "constants": consts,
                            "calls": hist, "equal operands": [(i, j) for i, j in same if data[i] is data[j]], "result": str(r)[:300]})


def plan(c):
    c.refuted("MC_Backend", "MC_BackendBad.cfg", "RightLibrary")
    r = c.model("MC_Backend", c.pick("MC_Backend2.cfg", "MC_Backend.cfg"), expect_min=1000)
    c.judge("T_Backend", c.record("spec", file=c.emitted(r, c.pick(None, 40000))), states_per=2, name="histories of the specification")
    c.judge("T_Backend", c.record("disp"), states_per=2, name="recording libraries")
    c.judge("T_Backend", c.record("real"), states_per=2, name="installed libraries")
    c.judge("T_Backend", c.record("modes"), states_per=2, name="torch without tensordot, tensorflow graphs, stand-ins for cupy and theano")
    c.assumptions.append("cupy and theano are not installed: stand-ins with the interface their converters use take their place (vlib/fakes.py); mars is not exercised; dask, sparse and autograd are exercised on contractions whose labels each occur in two places")
