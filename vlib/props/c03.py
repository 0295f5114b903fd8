"""C03: the contraction report is exact."""
import re
from fractions import Fraction
from vlib import gen
from vlib.finders import norm_path


def big(n):
    n = int(n)
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


class Odd(Exception):
    pass


def whole(x):
    f = Fraction(x)
    if f.denominator != 1 or f < 0:
        raise Odd("not a natural number: %r" % (x,))
    return big(f.numerator)


def sci(s):
    m = re.fullmatch(r"(\d)\.(\d{3})e([+-]\d+)", s)
    if not m:
        raise Odd("printed number %r" % s)
    return [int(m.group(1) + m.group(2)), int(m.group(3))]


def split_eq(eq, lab):
    lhs, rhs = eq.split("->")
    return [[lab[ch] for ch in t] for t in lhs.split(",")], [lab[ch] for ch in rhs]


def describe(info, lab):
    d = {"terms": [[lab[ch] for ch in t] for t in info.input_subscripts.split(",")],
         "out": [lab[ch] for ch in info.output_subscript]}
    d["eqterms"], d["eqout"] = split_eq(info.eq, lab)
    d["indices"] = [lab[ch] for ch in info.indices]
    d["scale"] = [int(x) for x in info.scale_list]
    d["sizes"] = [whole(x) for x in info.size_list]
    d["naive"], d["opt"], d["largest"] = whole(info.naive_cost), whole(info.opt_cost), whole(info.largest_intermediate)
    sp = Fraction(info.speedup)
    d["sp"], d["sq"] = big(sp.numerator), big(sp.denominator)
    d["sd"] = [{"x": lab[ch], "s": whole(v)} for ch, v in info.size_dict.items()]
    d["shapes"] = [[whole(x) for x in s] for s in info.shapes]
    d["path"] = norm_path(info.path)
    steps = []
    for inds, rm, es, rem, _ in info.contraction_list:
        lhs, rhs = split_eq(es, lab)
        steps.append({"inds": [int(x) for x in inds], "rm": [lab[ch] for ch in rm], "lhs": lhs, "rhs": rhs,
                      "hasrem": rem is not None, "rem": [[lab[ch] for ch in t] for t in (rem or ())]})
    d["steps"] = steps
    return d


def printed(info, lab):
    txt = str(info)
    g = {}
    for key, pat in (("c", "Complete contraction"), ("ns", "Naive scaling"), ("os", "Optimized scaling"), ("nf", "Naive FLOP count"),
                     ("of", "Optimized FLOP count"), ("sp", "Theoretical speedup"), ("li", "Largest intermediate")):
        m = re.search(pat + r":\s+(\S+)", txt)
        if not m:
            raise Odd("no line %r in the report" % pat)
        g[key] = m.group(1)
    t, o = split_eq(g["c"], lab)
    rows = []
    for line in txt.split("-" * 80)[-1].strip("\n").split("\n"):
        if not line.strip():
            continue
        f = line.split()
        if len(f) != 4:
            raise Odd("row %r of the report" % line)
        lhs, rhs = split_eq(f[2], lab)
        rem, ro = split_eq(f[3], lab) if f[3] != "..." else ([], [])
        rows.append({"scale": int(f[0]), "lhs": lhs, "rhs": rhs, "hasrem": f[3] != "...", "rem": rem, "out": ro})
    return {"rows": rows, "pterms": t, "pout": o, "pnaivescale": int(g["ns"]), "poptscale": int(g["os"]), "pnaive": sci(g["nf"]), "popt": sci(g["of"]),
            "pspeed": sci(g["sp"]), "plargest": sci(g["li"])}


EMPTY = {"terms": [], "out": [], "eqterms": [], "eqout": [], "indices": [], "scale": [], "sizes": [], "naive": [], "opt": [], "largest": [],
         "sp": [], "sq": [], "sd": [], "shapes": [], "path": [], "steps": []}
PRINT0 = {"rows": [], "pterms": [], "pout": [], "pnaivescale": 0, "poptscale": 0, "pnaive": [0, 0], "popt": [0, 0], "pspeed": [0, 0], "plargest": [0, 0]}


def run(ctx, oe, terms, out, dims, names, opt, optname, arrays=None, blas=True, limit=None):
    eq = gen.eq_of(terms, out, names)
    lab = {ch: i + 1 for i, ch in enumerate(names)}
    case = {"terms": terms, "out": out, "dims": [[big(d) for d in s] for s in dims], "path": [], "e": "", "info": dict(EMPTY, **PRINT0), "hasprint": False}
    ctx.doing((eq, dims, optname))
    if arrays is None:
        f = lambda: oe.contract_path(eq, *[tuple(d) for d in dims], shapes=True, optimize=opt, use_blas=blas, memory_limit=limit)
    else:
        f = lambda: oe.contract_path(eq, *arrays, optimize=opt, use_blas=blas, memory_limit=limit)
    r = ctx.call(f)
    if r[0] == "err":
        case["e"] = r[1]
        if limit is not None and r[1] == "RuntimeError":
            return
    else:
        try:
            path, info = r[1]
            case["path"] = norm_path(path)
            case["info"] = describe(info, lab)
            simple = all(ch.isalpha() for ch in names)
            if simple and "->" in eq and gen.eq_of(terms, [], names) != "->" and all(terms):
                case["info"].update(printed(info, lab))
                case["hasprint"] = True
            else:
                case["info"].update(PRINT0)
        except (Odd, KeyError, ValueError, TypeError, AttributeError) as ex:
            case["e"] = "Report:%s:%s" % (type(ex).__name__, str(ex)[:80])
            case["info"] = dict(EMPTY, **PRINT0)
    ctx.emit(case, {"eq": eq, "dims": dims, "optimize": optname, "path": str(case["path"])[:200], "error": case["e"]})


def rec_main(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(15000, 80000))):
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 14])
        terms, out, L = gen.network(rng, n, rng.randint(1, max(2, int(1.5 * n))), max_rank=4, p_repeat=rng.choice([0, 0, 0.2]), p_dup=rng.choice([0, 0.2]))
        pool = rng.choice([[2, 3, 4, 5], [1, 2, 3], [0, 2, 3], [10, 100, 1000], [2 ** 31, 10 ** 12, 7], [99999, 123456789, 10 ** 6], [2]])
        sizes = {x: rng.choice(pool) for x in range(1, L + 1)}
        pb = rng.choice([0, 0, 0.2])
        dims = [[1 if (t.count(x) == 1 and rng.random() < pb) else sizes[x] for x in t] for t in terms]
        r = rng.random()
        if r < 0.5:
            opt = gen.rand_path(rng, n)
            name = "path"
            if rng.random() < 0.3:
                opt = tuple(opt)
        else:
            name = opt = rng.choice(["auto", "greedy", "branch-1", "random-greedy"] + (["auto-hq"] if n <= 8 else []) + (["optimal", "branch-all", "dp"] if n <= 6 else []) + [True, None, False])
            if opt in (True, None):
                opt = True
        limit = rng.choice([None, None, None, "max_input", 30]) if name != "path" and opt is not False else None
        arrays = None
        if gen.prod(max(1, d) for s in dims for d in s) < 10 ** 5 and rng.random() < 0.3:
            arrays = [np.zeros(s) for s in dims]
        run(ctx, oe, terms, out, dims, gen.names_for(rng, L), opt, name, arrays, rng.random() < 0.7, limit)


def rec_large(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(300, 1500))):
        n = rng.choice([19, 20, 21, 22, 23, 26, 32])
        terms, out, L = gen.network(rng, n, rng.randint(n // 2, n + 4), max_rank=3, kind=rng.choice(["graph", "chain", "split", "random"]), p_out=0.1)
        sizes = {x: rng.choice([2, 3, 11, 4096]) for x in range(1, L + 1)}
        dims = [[sizes[x] for x in t] for t in terms]
        opt = rng.choice(["greedy", "auto", gen.rand_path(rng, n)])
        run(ctx, oe, terms, out, dims, gen.names_for(rng, L), opt, str(opt)[:40])


def plan(c):
    c.model("MC_BigNat", expect_min=100)
    recs = c.record("main") + c.record("large")
    c.judge("T_Info", recs, states_per=lambda rs: sum(2 if r["case"]["e"] else len(r["case"]["path"]) + 3 for r in rs))
