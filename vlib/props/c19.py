"""C19: linear and single-assignment paths convert into each other exactly."""
import json
from vlib import gen
from vlib.finders import norm_path


def convert(ctx, paths, lin, ssa, meta):
    case = {"lin": lin, "sin": ssa, "ssa": [], "lout": [], "back": [], "forth": [], "e": ""}
    wrap = meta.pop("wrap", "t")
    mk = (lambda p: [tuple(s) for s in p]) if wrap == "t" else (lambda p: tuple(tuple(s) for s in p))

    def go():
        a = paths.linear_to_ssa(mk(lin))
        b = paths.ssa_to_linear(mk(ssa))
        return a, b, paths.ssa_to_linear(a), paths.linear_to_ssa(b)
    ctx.doing((lin, ssa))
    r = ctx.call(go)
    if r[0] == "err":
        case["e"] = r[1]
    else:
        for k, v in zip(("ssa", "lout", "back", "forth"), r[1]):
            v = norm_path(v)
            if v is None:
                case["e"] = "NotAPath"
                v = []
            case[k] = v
    ctx.emit(case, meta or {"lin": lin, "ssa": ssa})


def rec_spec(ctx):
    """paths enumerated by TLC from the path machine"""
    from opt_einsum import paths
    rng = ctx.rng
    for line in ctx.mine(open(ctx.params["file"])):
        p = json.loads(line)
        lin = [rng.sample(s, len(s)) for s in p["lin"]]
        ssa = [rng.sample(s, len(s)) for s in p["ssa"]]
        convert(ctx, paths, lin, ssa, {"wrap": rng.choice("tl")})


def rand_ssa(rng, n):
    avail, nxt, path = list(range(n)), n, []
    while len(avail) > 1 or not path:
        a = min(len(avail), rng.choice([2, 2, 2, 3, 5, 1, 4]))
        if a == 1 and rng.random() < 0.7 and len(avail) > 1:
            a = 2
        s = rng.sample(avail, a)
        path.append(s)
        avail = [x for x in avail if x not in s] + [nxt]
        nxt += 1
    return path


def rec_rand(ctx):
    from opt_einsum import paths
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(10000, 60000))):
        n = rng.choice([1, 2, 6, 7, 8, 9, 12, 20, 33, 60, 100])
        lin = [list(s) for s in gen.rand_path(rng, n)]
        convert(ctx, paths, lin, rand_ssa(rng, n), {"wrap": rng.choice("tl")})
    for n in ctx.mine([150, 200, 257, 300, 300, 300, 300, 300]):
        lin = [list(s) for s in gen.rand_path(rng, n, 2)]
        convert(ctx, paths, lin, rand_ssa(rng, n), {"n": n})


def plan(c):
    r = c.model("MC_Path", "MC_Path5_emit.cfg", expect_min=9000)
    f = c.emitted(r)
    recs = c.record("spec", file=f) + c.record("rand")
    c.judge("T_Forms", recs, states_per=2)
