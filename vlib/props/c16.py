"""C16: all formats of one contraction denote it."""
import json
from vlib import formats as F
from vlib.gen import names_for
from vlib.props.c01 import _np_to_case

NONE = {"e": "", "shape": [], "data": [], "path": [], "ins": [], "out": []}


def outcome(np, fn, kind, r):
    o = dict(NONE, fn=fn, kind=kind)
    if r[0] != "ok":
        o["e"] = r[1]
        return o
    v = r[1]
    if kind == "value":
        c = _np_to_case(np, v, "mod")
        if c is None:
            o["kind"] = "malformed"
        else:
            o.update(c)
    elif kind == "path":
        o["path"] = [sorted(int(i) for i in s) for s in v[0]]
    else:
        o["ins"] = [F.codes(t) for t in v[0].split(",")]
        o["out"] = F.codes(v[1])
    return o


def observe(ctx, oe, np, rng, args, shargs, opt, plain, arrs):
    res = []
    res.append(outcome(np, "contract", "value", ctx.call(lambda: oe.contract(*args, optimize=opt))))
    res.append(outcome(np, "contract_path", "path", ctx.call(lambda: oe.contract_path(*args, optimize=opt))))
    res.append(outcome(np, "contract_path-shapes", "path", ctx.call(lambda: oe.contract_path(*shargs, optimize=opt, shapes=True))))
    res.append(outcome(np, "expression", "value", ctx.call(lambda: oe.contract_expression(*shargs, optimize=opt or "auto")(*arrs))))
    res.append(outcome(np, "parse", "parse", ctx.call(lambda: oe.parser.parse_einsum_input(args))))
    res.append(outcome(np, "parse-shapes", "parse", ctx.call(lambda: oe.parser.parse_einsum_input(shargs, shapes=True))))
    if plain:
        res.append(outcome(np, "unoptimised", "value", ctx.call(lambda: oe.contract(*args, optimize=False))))
    return res


OPTS = ["auto", "greedy", "optimal", "dp", "branch-all", "branch-1", "auto-hq", True, None]


def case(ctx, oe, np, rng, variants, sh):
    """variants: list of ('str', text) or ('inter', terms, out, nlabels, small)"""
    tup = [tuple(x) for x in sh]
    arrs = F.arrays(np, rng, tup)
    ops = F.loosen(np, rng, arrs)
    tup = F.shape_forms(np, rng, tup)
    opt = rng.choice(OPTS)
    if len(sh) > 5 and opt in ("optimal", "branch-all"):
        opt = "greedy"
    reqs, metas = [], []
    for v in variants:
        if v[0] == "str":
            args, shargs, code, plain = [v[1]] + ops, [v[1]] + tup, F.codes(v[1]), True
        else:
            _, terms, out, L, small = v
            pool = F.label_pool(rng, L, small)
            st = rng.getstate()
            args = F.interleave(rng, ops, terms, out, pool, np)
            rng.setstate(st)
            shargs = F.interleave(rng, tup, terms, out, pool, np)
            code, plain = F.inter_codes(terms, out), small
        ctx.doing((str(args[0]) if v[0] == "str" else str(args)[:300], tup, opt))
        reqs.append({"str": code, "shapes": sh, "res": observe(ctx, oe, np, rng, args, shargs, opt, plain, arrs)})
        metas.append(v[1] if v[0] == "str" else str([x for x in args if not hasattr(x, "shape")])[:200])
    data = [[int(x) % 46337 for x in a.reshape(-1).tolist()] for a in arrs]
    ctx.emit({"k": "mean", "reqs": reqs, "data": data}, {"requests": metas, "shapes": sh, "optimize": str(opt), "results": [[(o["fn"], o["e"], o["shape"], o["path"]) for o in q["res"]] for q in reqs]})


def explicit_of(terms, nell):
    """the explicit output of an implicit request (written out here only to build the second format; the specification decides whether both mean the same)"""
    flat = [x for t in terms for x in t if x is not Ellipsis]
    once = sorted(x for x in set(flat) if flat.count(x) == 1)
    return ([Ellipsis] if nell else []) + once


def rec_formats(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(3500, 40000))):
        terms, out = F.structured(rng, 5 if rng.random() < 0.9 else 8)
        used = sorted({x for t in terms for x in t if x is not Ellipsis})
        m = {x: i for i, x in enumerate(used)}
        terms = [[x if x is Ellipsis else m[x] for x in t] for t in terms]
        out = None if out is None else [x if x is Ellipsis else m[x] for x in out]
        L = len(used)
        sh = F.valid_shapes(rng, terms)
        names = sorted(names_for(rng, L)) if L else []
        # names in code order so that implicit outputs agree between formats
        variants = [("str", F.render(rng, terms, out, names, False)), ("str", F.render(rng, terms, out, names, True)),
                    ("inter", terms, out, L, False), ("inter", terms, out, L, True)]
        if rng.random() < 0.5:
            names2 = sorted(names_for(rng, L)) if L else []
            variants.append(("str", F.render(rng, terms, out, names2, rng.random() < 0.5)))
        if out is None:
            variants.append(("str", F.render(rng, terms, explicit_of(terms, any(Ellipsis in t for t in terms)), names, rng.random() < 0.3)))
            variants.append(("inter", terms, explicit_of(terms, any(Ellipsis in t for t in terms)), L, False))
        case(ctx, oe, np, rng, variants, sh)


def rec_strings(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    lines = open(ctx.params["file"]).read().split("\n")
    for i, line in enumerate(lines):
        if i % ctx.nshards != ctx.shard or not line:
            continue
        s = json.loads(line)
        text = "".join(map(chr, s))
        terms = F.tokens_to_terms(s)
        sh = F.valid_shapes(rng, terms)
        case(ctx, oe, np, rng, [("str", text)], sh)


def rec_many(ctx):
    """many operands and labels: names beyond the alphabet, interleaved labels beyond 52"""
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(64, 800))):
        n = rng.choice([rng.randint(12, 40), rng.randint(20, 27), rng.randint(20, 25)])
        # a chain with some open legs: label i joins i and i+1
        terms = [[i, i + 1] for i in range(n)]
        L = n + 1
        for _ in range(rng.randint(0, 12)):
            rng.choice(terms).append(L)
            L += 1
        for t in terms:
            rng.shuffle(t)
        relabel = list(range(L))
        rng.shuffle(relabel)
        terms = [[relabel[x] for x in t] for t in terms]
        sizes = {x: 1 for x in range(L)}
        for x in rng.sample(range(L), min(L, 8)):
            sizes[x] = 2
        sh = [[sizes[x] for x in t] for t in terms]
        crowded = False
        if rng.random() < 0.6:
            axes = rng.choice([[2], [2, 3], [3, 2], [2, 1, 3], [3, 2, 2]])
            for t in rng.sample(range(n), rng.choice([1, 1, 2])):
                k = rng.randint(1, len(axes)) if any(Ellipsis in x for x in terms) else len(axes)
                at = rng.randint(0, len(terms[t]))
                terms[t].insert(at, Ellipsis)
                sh[t][at:at] = axes[len(axes) - k:]
            crowded = rng.random() < 0.6
        pool = [chr(c) for c in list(range(97, 123)) + list(range(65, 91)) + list(range(0xC0, 0x250)) + list(range(0x4E00, 0x4E80))]
        names = sorted(rng.sample(pool, L))
        if crowded:        # nearly all of the small letters in use, so that the letters found for the ellipsis are of both cases
            low = rng.sample(pool[:26], min(L, rng.randint(23, 26)))
            names = sorted(low + rng.sample(pool[26:], L - len(low)))
        keep = None
        if rng.random() < 0.5:
            keep = explicit_of(terms, any(Ellipsis in t for t in terms))
            rng.shuffle(keep)
            keep = keep[:10] + ([Ellipsis] if Ellipsis in [x for t in terms for x in t] and Ellipsis not in keep[:10] else [])
        tup = [tuple(x) for x in sh]
        arrs = F.arrays(np, rng, tup)
        tup = F.shape_forms(np, rng, tup)
        reqs, metas = [], []
        for v in range(2):
            if v == 0:
                text = F.render(rng, terms, keep, names, False)
                args, shargs, code = [text] + arrs, [text] + tup, F.codes(text)
            else:
                pl = sorted(rng.sample(range(-1000, 5000), L)) if rng.random() < 0.5 else list(range(L))
                st = rng.getstate()
                args = F.interleave(rng, arrs, terms, keep, pl, np)
                rng.setstate(st)
                shargs = F.interleave(rng, tup, terms, keep, pl, np)
                code = F.inter_codes(terms, keep)
            ctx.doing((v, str(shargs)[:300]))
            res = [outcome(np, "contract", "value", ctx.call(lambda: oe.contract(*args, optimize="greedy"))),
                   outcome(np, "contract_path-shapes", "path", ctx.call(lambda: oe.contract_path(*shargs, optimize="greedy", shapes=True))),
                   outcome(np, "parse", "parse", ctx.call(lambda: oe.parser.parse_einsum_input(args)))]
            if v == 0 and L <= 29 and n <= 27:      # what one einsum of the library can do
                res.append(outcome(np, "unoptimised", "value", ctx.call(lambda: oe.contract(*args, optimize=False))))
            reqs.append({"str": code, "shapes": sh, "res": res})
            metas.append(str(shargs)[:300])
        data = [[int(x) % 46337 for x in a.reshape(-1).tolist()] for a in arrs]
        ctx.emit({"k": "mean", "reqs": reqs, "data": data}, {"requests": metas, "results": [[(o["fn"], o["e"], o["shape"]) for o in q["res"]] for q in reqs]})


def plan(c):
    c.model("MC_Parser", c.pick("MC_Parser.cfg", "MC_Parser6.cfg"))
    r = c.model("MC_Parser", "MC_ParserEmit.cfg")
    f = c.emitted(r, c.pick(6000, None))
    c.judge("T_Parser", c.record("strings", file=f), states_per=2, name="strings generated by TLC")
    c.judge("T_Parser", c.record("formats"), states_per=2, name="the same contraction in several formats")
    c.judge("T_Parser", c.record("many"), states_per=2, name="more labels than letters")
    c.assumptions.append("interleaved labels other than the integers 0..51 are not passed to optimize=False, where they go to the backend's einsum unchanged")
