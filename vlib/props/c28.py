"""C28: dtype, casting and order mean what they mean for numpy.einsum."""
import contextlib
from vlib import gen
from vlib.props.c01 import _np_to_case, tensors_case

NP = {"i1": "int8", "i4": "int32", "i8": "int64", "f4": "float32", "f8": "float64", "c8": "complex64", "c16": "complex128"}
SHORT = {v: k for k, v in NP.items()}
CPLX = ("c8", "c16")


def make(np, rng, terms, sizes, types, real):
    res = []
    for t, ty in zip(terms, types):
        sh = tuple(sizes[x] for x in t)
        a = np.array([rng.randint(-1, 2) for _ in range(gen.prod(sh))]).reshape(sh)
        if ty in CPLX and not real:
            a = a + 1j * np.array([rng.randint(-1, 1) for _ in range(gen.prod(sh))]).reshape(sh)
        a = np.asarray(a).astype(NP[ty])
        if a.ndim > 1 and rng.random() < 0.4:
            a = np.asfortranarray(a)
        res.append(a)
    return res


def rec_main(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(20000, 100000))):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        kind = rng.choice([None, "graph", "chain"])
        terms, out, NL = gen.network(rng, n, rng.randint(1, 5), max_rank=3, p_repeat=0.05, p_dup=0.05, p_scalar=0.03, kind=kind)
        sizes = {x: rng.choice([1, 2, 2, 3]) for x in range(1, NL + 1)}
        pool = rng.choice([["f8"], ["f4"], ["i4", "f4"], ["i1", "i4", "i8"], ["f4", "f8", "c8"], list(NP)])
        types = [rng.choice(pool) for _ in range(n)]
        dtype = rng.choice(["", "", "f4", "f8", "c16", rng.choice(list(NP)), rng.choice(pool)])
        casting = rng.choice(["", "safe", "safe", "same_kind", "unsafe", "unsafe", "no", "equiv"])
        order = rng.choice(["", "", "K", "C", "F", "A"])
        kw = {}
        if dtype:
            kw["dtype"] = rng.choice([NP[dtype], np.dtype(NP[dtype]), getattr(np, NP[dtype])])
        elif rng.random() < 0.1:
            kw["dtype"] = None
        if casting:
            kw["casting"] = casting
        if order:
            kw["order"] = order
        if not kw:
            continue
        anyc = any(t in CPLX for t in types)
        real = anyc and bool(dtype) and dtype not in CPLX
        ring = "gauss" if anyc or dtype in CPLX else "mod"
        arrays = make(np, rng, terms, sizes, types, real)
        names = gen.names_for(rng, NL)
        eq = gen.eq_of(terms, out, names)
        res, say = [], []
        for j in range(3):
            single = n == 1
            if j == 0 and rng.random() < 0.3:
                opt = False
            elif rng.random() < 0.5:
                opt = rng.choice(["auto", "greedy", "optimal", "dp", True])
            else:
                opt = gen.rand_path(rng, n)
                single = len(opt[-1]) == 1
            more = {"use_blas": rng.random() < 0.5} if opt is not False and rng.random() < 0.4 else {}
            how = "contract" if opt is False else rng.choice(["contract", "contract", "expression", "constants"])
            shared = rng.random() < 0.15

            def go():
                with (oe.shared_intermediates() if shared else contextlib.nullcontext()):
                    if how == "contract":
                        return oe.contract(eq, *arrays, optimize=opt, **more, **kw)
                    consts = sorted(rng.sample(range(n), rng.randint(0, n - 1))) if how == "constants" else []
                    e = oe.contract_expression(eq, *[a if i in consts else a.shape for i, a in enumerate(arrays)], constants=consts, optimize=opt, **more, **kw)
                    rest = [a for i, a in enumerate(arrays) if i not in consts]
                    e(*rest)
                    return e(*rest)
            ctx.doing((eq, [a.shape for a in arrays], types, kw, str(opt), how))
            r = ctx.call(go)
            o = {"e": "" if r[0] == "ok" else r[1], "malformed": False, "type": "", "shape": [], "data": [], "view": single, "cc": False, "fc": False}
            if r[0] == "ok":
                x = np.asarray(r[1])
                v = _np_to_case(np, x, ring)
                o.update(v if v else {"malformed": True})
                o.update(type=SHORT.get(str(x.dtype), str(x.dtype)), cc=bool(x.flags.c_contiguous), fc=bool(x.flags.f_contiguous))
            res.append(o)
            say.append((str(opt), how, more, "shared" if shared else "", o["e"], o["type"]))
        ctx.emit({"ring": ring, "ts": tensors_case(np, terms, arrays, ring), "out": out, "types": types, "dtype": dtype, "casting": casting or "safe", "order": order, "res": res},
                 {"eq": eq, "shapes": [list(a.shape) for a in arrays], "types": types, "options": {k: str(v) for k, v in kw.items()}, "calls": say})


def plan(c):
    c.refuted("MC_Options", "MC_OptionsBad.cfg", "Agrees")
    c.model("MC_Options", c.pick("MC_Options.cfg", "MC_Options4.cfg"), expect_min=10000)
    c.judge("T_Options", c.record("main"), states_per=2, name="options of einsum")
    c.assumptions.append("contractions of one operand are left out (numpy.einsum returns a view, whatever the options, where it can); values are small integers, exactly represented in every type; order 'A' and 'K' leave the memory order open")
