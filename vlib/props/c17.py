"""C17: acceptance coincides with validity."""
import json
from vlib import formats as F


def try_all(ctx, oe, np, rng, args, shargs, few=False):
    """args: request with arrays; shargs: with shapes. Returns outcomes of the entry points."""
    opt = rng.choice(["auto", "greedy", "optimal", "dp", "branch-1", True, "auto-hq"])
    fns = [("contract", lambda: oe.contract(*args, optimize=opt)),
           ("contract_path", lambda: oe.contract_path(*args, optimize=opt)),
           ("contract_path-shapes", lambda: oe.contract_path(*shargs, optimize=opt, shapes=True)),
           ("contract_expression", lambda: oe.contract_expression(*shargs, optimize=opt))]
    if few:
        fns = rng.sample(fns, 2)
    res = []
    for name, f in fns:
        r = ctx.call(f)
        res.append({"fn": name, "e": "" if r[0] == "ok" else r[1]})
    return res


def spoil(rng, shapes):
    """small changes of the operand shapes"""
    sh = [list(s) for s in shapes]
    r = rng.random()
    if r < 0.2 and sh:
        sh.pop(rng.randrange(len(sh)))
    elif r < 0.35:
        sh.insert(rng.randint(0, len(sh)), [2] * rng.randint(0, 2))
    elif r < 0.65 and sh:
        s = rng.choice(sh)
        if s and rng.random() < 0.5:
            s.pop(rng.randrange(len(s)))
        else:
            s.insert(rng.randint(0, len(s)), rng.choice([1, 2, 3]))
    elif sh:
        s = rng.choice(sh)
        if s:
            s[rng.randrange(len(s))] = rng.choice([0, 1, 2, 3, 4])
    return sh


def rec_strings(ctx):
    """every short token string generated by TLC, with fitting and non-fitting operands"""
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    lines = open(ctx.params["file"]).read().split("\n")
    for i, line in enumerate(lines):
        if i % ctx.nshards != ctx.shard or not line:
            continue
        s = json.loads(line)
        text = "".join(map(chr, s))
        terms = F.tokens_to_terms(s)
        reqs = []
        for j in range(ctx.pick(2, 5)):
            sh = F.valid_shapes(rng, terms)
            if j and rng.random() < 0.8:
                sh = spoil(rng, sh)
            tup = [tuple(x) for x in sh]
            ctx.doing((text, tup))
            ops = F.loosen(np, rng, F.arrays(np, rng, tup))
            tup = F.shape_forms(np, rng, tup)
            reqs.append({"str": s, "shapes": sh, "res": try_all(ctx, oe, np, rng, [text] + ops, [text] + tup, few=ctx.tier != "thorough")})
        ctx.emit({"k": "accept", "reqs": reqs}, {"subscripts": text, "shapes": [r["shapes"] for r in reqs], "results": [r["res"] for r in reqs]})


CHARS = "ab,->. "


def rec_mutated(ctx):
    """longer requests: well-formed ones in all formats and small mutations of them"""
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(20000, 120000))):
        terms, out = F.structured(rng, 5)
        L = 1 + max([x for t in terms for x in t if x is not Ellipsis] + [0])
        sh = F.valid_shapes(rng, terms)
        mode = rng.random()
        if mode < 0.35 and out is not None:      # output errors
            r = rng.random()
            o = list(out)
            if r < 0.35 and o:
                x = rng.choice(o)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    o.insert(rng.randint(0, len(o)), x)
            elif r < 0.7:
                o.insert(rng.randint(0, len(o)), L)
                L += 1
            elif o:
                o.pop(rng.randrange(len(o)))
            out = o
        elif mode < 0.7:
            sh = spoil(rng, sh)
        from vlib.gen import names_for
        names = names_for(rng, L + 1)
        text = F.render(rng, terms, out, names, rng.random() < 0.2)
        if rng.random() < 0.2:
            k = rng.randint(0, len(text))
            r = rng.random()
            text = text[:k] + rng.choice(CHARS) + text[k:] if r < 0.5 else text[:k] + text[k + 1:]
        tup = [tuple(x) for x in sh]
        ops = F.loosen(np, rng, F.arrays(np, rng, tup))
        tup = F.shape_forms(np, rng, tup)
        ctx.doing((text, tup))
        reqs = [{"str": F.codes(text), "shapes": sh, "res": try_all(ctx, oe, np, rng, [text] + ops, [text] + tup)}]
        if len(sh) == len(terms) and rng.random() < 0.6:
            pool = F.label_pool(rng, L)
            st = rng.getstate()
            a = F.interleave(rng, ops, terms, out, pool, np)
            rng.setstate(st)
            b = F.interleave(rng, tup, terms, out, pool, np)
            ctx.doing(("interleaved", str(a)[:300]))
            reqs.append({"str": F.inter_codes(terms, out), "shapes": sh, "res": try_all(ctx, oe, np, rng, a, b)})
        ctx.emit({"k": "accept", "reqs": reqs}, {"subscripts": text, "terms": str(terms), "out": str(out), "shapes": sh, "results": [r["res"] for r in reqs]})


def rec_expect(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    x = np.ones((2, 2))
    for _ in range(ctx.share(ctx.pick(160, 800))):
        n = rng.randint(3, 5)
        eq = ",".join("ab"[i % 2] + "cd"[i % 2] for i in range(n)) + rng.choice(["->", "->a", ""])
        ops = [x] * n
        shp = [(2, 2)] * n
        bad = rng.choice(["zzz", "optimal2", "greedy ", "", "branch-3", "branch"])
        kw = rng.choice(["bogus", "optimise", "memory", "shape", "einsum_calls"])
        k = rng.randrange(n)
        odd = rng.choice([lambda: {1, 2}, lambda: None, lambda: object(), lambda: (i for i in range(2)), lambda: {1: 2}])
        eqk = ",".join("" if i == k and rng.random() < 0.7 else "ac" for i in range(n)) + "->a"
        tests = [("unknown-optimizer-contract", "KeyError", lambda: oe.contract(eq, *ops, optimize=bad)),
                 ("unknown-optimizer-path", "KeyError", lambda: oe.contract_path(eq, *ops, optimize=bad)),
                 ("unknown-optimizer-expression", "KeyError", lambda: oe.contract_expression(eq, *shp, optimize=bad) if bad else oe.get_nothing),
                 ("unknown-keyword-path", "TypeError", lambda: oe.contract_path(eq, *ops, **{kw: 1})),
                 ("unknown-keyword-contract", "TypeError", lambda: oe.contract(eq, *ops, **{kw: 1})),
                 ("array-as-shape-path", "ValueError", lambda: oe.contract_path(eq, *([x] + shp[1:]), shapes=True)),
                 ("operand-not-an-array", "ValueError", lambda: oe.contract(eqk, *(ops[:k] + [odd()] + ops[k + 1:]))),
                 ("operand-not-an-array-path", "ValueError", lambda: oe.contract_path(eqk, *(ops[:k] + [odd()] + ops[k + 1:]))),
                 ("known-request", "", lambda: oe.contract(eq, *ops))]
        if not bad:
            tests.pop(2)
        for what, want, f in tests:
            r = ctx.call(f)
            ctx.emit({"k": "expect", "what": what, "want": want, "e": "" if r[0] == "ok" else r[1]}, {"what": what, "eq": eq, "with odd operand": eqk, "optimize": bad, "keyword": kw, "result": str(r)[:200]})


def plan(c):
    c.model("MC_Parser", c.pick("MC_Parser.cfg", "MC_Parser6.cfg"))
    r = c.model("MC_Parser", "MC_ParserEmit.cfg")
    f = c.emitted(r, c.pick(12000, None))
    c.judge("T_Parser", c.record("strings", file=f), states_per=2, name="strings generated by TLC")
    c.judge("T_Parser", c.record("mutated"), states_per=2, name="longer and mutated requests")
    c.judge("T_Parser", c.record("expect"), states_per=2, name="keywords and names")
    c.assumptions.append("sizes given twice to one operand's repeated label, and an ellipsis whose axes an explicit output drops, are unspecified (any outcome but an odd exception is accepted)")
