"""C20: symbols and renaming."""
import json
from vlib import gen

TOP = 1112064


def codes(s):
    return [ord(x) for x in s]


def rec_symbols(ctx):
    from opt_einsum.parser import get_symbol, gen_unused_symbols
    rng = ctx.rng
    if ctx.shard == 0:
        # one case covers the whole range, so that any two indices are compared
        for start, stop in ([(0, 70000)] if ctx.tier != "thorough" else [(0, TOP)]):
            r = ctx.call(lambda: [ord(get_symbol(i)) for i in range(start, stop)], 120)
            ctx.emit({"k": "sym", "from": start, "syms": r[1]} if r[0] == "ok" else {"k": "error", "e": r[1]}, {"range": [start, stop]})
    for _ in range(ctx.share(400)):
        idx = sorted(set(rng.randrange(TOP) for _ in range(400)) | set(range(rng.randint(0, 60))) | {55295, 55296, 51, 52, 57343, 57344, TOP - 1})
        r = ctx.call(lambda: [ord(get_symbol(i)) for i in idx])
        ctx.emit({"k": "sym", "from": 1, "syms": r[1]} if r[0] == "ok" else {"k": "error", "e": r[1]}, {"indices": idx[:5]})
    for _ in range(ctx.share(ctx.pick(8000, 60000))):
        m = rng.randint(0, 60)
        style = rng.random()
        used = "".join(get_symbol(i) for i in (range(m) if style < 0.4 else rng.sample(range(200), m))) if style < 0.8 else "".join(rng.choice("abcxyzαβ") for _ in range(m))
        n = rng.choice([0, 1, 2, 5, 52, 100])
        r = ctx.call(lambda: [ord(x) for x in gen_unused_symbols(used, n)])
        ctx.emit({"k": "unused", "used": codes(used), "n": n, "got": r[1]} if r[0] == "ok" else {"k": "error", "e": r[1]}, {"used": used, "n": n})


def one(ctx, P, e):
    return {"e": codes(e), "canon": codes(P.alpha_canonicalize(e)), "valid": codes(P.convert_to_valid_einsum_chars(e)), "isvalid": bool(P.has_valid_einsum_chars_only(e))}


PUN = set(",->.")


def renamed(rng, e):
    labs = sorted({x for x in e if x not in PUN})
    names = gen.names_for(rng, len(labs)) if len(labs) <= 150 else rng.sample([chr(c) for c in range(0xC0, 0x1000) if c not in (0x2E,)], len(labs))
    m = dict(zip(labs, names))
    return "".join(m.get(x, x) for x in e)


def emit_ren(ctx, P, rng, e, k):
    es = [e] + [renamed(rng, e) for _ in range(k)]
    ctx.doing(es)
    r = ctx.call(lambda: [one(ctx, P, x) for x in es])
    ctx.emit({"k": "ren", "eqs": r[1]} if r[0] == "ok" else {"k": "error", "e": r[1]}, {"equations": es, "result": str(r)[:400] if r[0] != "ok" else [("".join(map(chr, q["canon"])), "".join(map(chr, q["valid"]))) for q in r[1]]})
    lhs = e.split("->")[0].replace(".", "").replace("-", "").replace(">", "")
    r = ctx.call(lambda: codes(P.find_output_str(lhs)))
    ctx.emit({"k": "out", "e": codes(lhs), "got": r[1]} if r[0] == "ok" else {"k": "error", "e": r[1]}, {"subscripts": lhs, "result": str(r)[:200]})


def rec_spec(ctx):
    from opt_einsum import parser as P
    rng = ctx.rng
    for i, line in enumerate(open(ctx.params["file"]).read().split("\n")):
        if line and i % ctx.nshards == ctx.shard:
            emit_ren(ctx, P, rng, "".join(map(chr, json.loads(line))), 2)


def rec_rand(ctx):
    from opt_einsum import parser as P
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(12000, 80000))):
        n = rng.randint(1, 8)
        terms, out, NL = gen.network(rng, n, rng.randint(1, 60 if rng.random() < 0.2 else 8), max_rank=rng.choice([4, 12]), p_repeat=0.2)
        e = gen.eq_of(terms, None if rng.random() < 0.3 else out, gen.names_for(rng, NL))
        if rng.random() < 0.2:
            e = "..." + e
        emit_ren(ctx, P, rng, e, 3)


def plan(c):
    r = c.model("MC_Symbols", c.pick("MC_Symbols.cfg", "MC_Symbols5.cfg"))
    f = c.emitted(r)
    c.judge("T_Symbols", c.record("spec", file=f), states_per=2, name="equations generated by TLC")
    c.judge("T_Symbols", c.record("rand"), states_per=2, name="random equations")
    c.judge("T_Symbols", c.record("symbols"), states_per=2, name="symbol table")
