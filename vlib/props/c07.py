"""C07: names of optimizers."""
import json
from vlib import gen
from vlib.finders import norm_path
from vlib.props.c03 import big

BUILTIN = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp", "dynamic-programming", "random-greedy", "random-greedy-128"]
NET = ("ab,bc,cd->ad", [(2, 3), (3, 4), (4, 5)])


def codes(s):
    return [ord(ch) for ch in s]


def spell(rng, s):
    return "".join(rng.choice([ch.lower(), ch.upper()]) for ch in s)


class World:
    """registers marker finders with the real library; fresh name prefix per history since registrations are permanent"""
    serial = 0

    def __init__(self, ctx, oe):
        from opt_einsum import paths
        World.serial += 1
        self.ctx, self.oe, self.paths = ctx, oe, paths
        self.prefix = "zz%dx%d-" % (ctx.shard, World.serial)
        self.called = []
        self.evs = []

    def fn(self, f):
        def finder(inputs, output, size_dict, memory_limit=None):
            self.called.append(f)
            return [(0, 1), (0, 1)] if f % 2 else [(1, 2), (0, 1)]
        return finder

    def do(self, op, name, f):
        del self.called[:]
        oe, paths = self.oe, self.paths
        res = -1
        if op == "reg":
            r = self.ctx.call(lambda: oe.paths.register_path_fn(name, self.fn(f)))
        elif op == "get":
            r = self.ctx.call(lambda: paths.get_path_fn(name))
            if r[0] == "ok":
                p = self.ctx.call(lambda: r[1]([frozenset("ab"), frozenset("bc"), frozenset("cd")], frozenset("ad"), dict(a=2, b=3, c=4, d=5), None))
                if p[0] != "ok":
                    r = p
        else:
            r = self.ctx.call(lambda: oe.contract_path(NET[0], *NET[1], shapes=True, optimize=name))
        if r[0] == "ok" and op != "reg":
            res = self.called[0] if len(self.called) == 1 else (0 if not self.called else -2)
        self.evs.append({"op": op, "name": codes(name), "fn": f, "out": "ok" if r[0] == "ok" else r[1], "res": res})

    def emit(self):
        self.ctx.emit({"k": "hist", "builtin": [codes(b) for b in BUILTIN], "evs": self.evs},
                      {"history": [(e["op"], "".join(map(chr, e["name"])), e["out"], e["res"]) for e in self.evs]})


def rec_spec(ctx):
    """histories enumerated by TLC"""
    import opt_einsum as oe
    rng = ctx.rng
    for line in ctx.mine(open(ctx.params["file"])):
        w = World(ctx, oe)
        b = rng.choice(BUILTIN)
        for e in json.loads(line):
            s = "".join(map(chr, e["name"]))
            if s.lower() == "gre":
                name = b if s == "gre" else b[0].upper() + b[1:]
            else:
                name = w.prefix + s
            w.do(e["op"], name, e["fn"])
        w.emit()


def rec_rand(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(2000, 10000))):
        w = World(ctx, oe)
        mine = [w.prefix + s for s in rng.sample(["foo", "Bar-1", "GREEDY2", "auto-", "_x", "a b"], 3)]
        for j in range(rng.randint(5, 14)):
            base = rng.choice(mine + mine + [rng.choice(BUILTIN)])
            w.do(rng.choice(["reg", "get", "use"]), spell(rng, base), j + 1)
        w.emit()


def rec_alg(ctx):
    import opt_einsum as oe
    from opt_einsum import paths
    rng = ctx.rng
    for i in range(ctx.share(ctx.pick(5000, 30000))):
        n = rng.choice([3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 13, 14, 14, 15, 15, 16, 16, 17, 17, 18, 20])
        big_n = n > 8
        terms, out, L = gen.network(rng, n, rng.randint(n, int((1.25 if big_n else 1.7) * n)), max_rank=4, kind=rng.choice(["graph", "random", "chain", "star"]) if not big_n else rng.choice(["graph", "chain", "graph"]), p_out=0.15)
        sizes = {x: rng.choice([2, 3, 4, 5, 7, 11, 20]) for x in range(1, L + 1)}
        names = gen.names_for(rng, L)
        ins = [frozenset(names[x - 1] for x in t) for t in terms]
        o = frozenset(names[x - 1] for x in out)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        eq = gen.eq_of(terms, out, names)
        sh = [tuple(sizes[x] for x in t) for t in terms]
        cand = ["auto", "auto", "auto-hq", "auto-hq", "greedy", "eager", "opportunistic", "branch-1", "random-greedy", "True", "None"]
        if n <= 8:
            cand += ["branch-2", "random-greedy-128"]
        if n <= 6:
            cand += ["branch-all", "optimal"]
        if n <= 10:
            cand += ["dp", "dynamic-programming"]
        name = rng.choice(cand)
        want = {"auto": None, "True": None, "None": None, "auto-hq": None}
        need = set()
        if name in ("auto", "True", "None", "auto-hq"):
            need |= {"greedy", "branch-1"}
            if n <= 8:
                need |= {"branch-2"}
            if n <= 6:
                need |= {"branch-all", "optimal"}
            if n <= 16:
                need |= {"dp"} if name == "auto-hq" or n <= 9 else set()
            if n >= 17 and name == "auto-hq":
                need |= {"random-greedy-128"}
        else:
            need = {"dp" if name in ("dp", "dynamic-programming") else "greedy" if name in ("eager", "opportunistic") else name}
        ref = {}
        for a in sorted(need):
            ctx.doing((a, eq, sizes))
            f = {"greedy": lambda: paths.greedy(ins, o, sd), "branch-1": lambda: oe.BranchBound(nbranch=1)(ins, o, sd), "branch-2": lambda: oe.BranchBound(nbranch=2)(ins, o, sd),
                 "branch-all": lambda: oe.BranchBound(nbranch=None)(ins, o, sd), "optimal": lambda: paths.optimal(ins, o, sd), "dp": lambda: oe.DynamicProgramming()(ins, o, sd),
                 "random-greedy": lambda: oe.RandomGreedy(max_repeats=32)(ins, o, sd), "random-greedy-128": lambda: oe.RandomGreedy(max_repeats=128)(ins, o, sd)}[a]
            r = ctx.call(f, 60)
            if r[0] == "ok":
                ref[a] = norm_path(r[1])
        arg = {"True": True, "None": None}.get(name, spell(rng, name) if rng.random() < 0.5 else name)
        ctx.doing((name, eq, sizes))
        r = ctx.call(lambda: oe.contract_path(eq, *sh, shapes=True, optimize=arg)[0], 60)
        ctx.emit({"k": "alg", "name": name, "n": n, "path": norm_path(r[1]) if r[0] == "ok" else [], "e": "" if r[0] == "ok" else r[1], "ref": ref},
                 {"name": str(arg), "eq": eq, "sizes": sd, "result": str(r[1])[:200]})


def rec_args(ctx):
    import numpy as np
    import opt_einsum as oe
    rng = ctx.rng
    got = []

    for i in range(ctx.share(ctx.pick(2000, 10000))):
        n = rng.randint(3, 6)
        terms, out, L = gen.network(rng, n, rng.randint(2, 7), max_rank=4, p_repeat=0.1)
        sizes = {x: rng.choice([1, 2, 3, 4]) for x in range(1, L + 1)}
        names = gen.names_for(rng, L)
        lab = {ch: j + 1 for j, ch in enumerate(names)}
        given = gen.rand_path(rng, n)
        name = "args%d-%d" % (ctx.shard, i)

        def finder(inputs, output, size_dict, memory_limit=None):
            got.append((inputs, output, size_dict, memory_limit))
            return given
        ctx.call(lambda: oe.paths.register_path_fn(spell(rng, name), finder))
        del got[:]
        lim = rng.choice([None, -1, 5, 1000])
        eq = gen.eq_of(terms, out, names)
        sh = [tuple(sizes[x] for x in t) for t in terms]
        arg = spell(rng, name)
        shapes = rng.random() < 0.5
        ops = sh if shapes else [np.zeros(s) for s in sh]
        r = ctx.call(lambda: oe.contract_path(eq, *ops, shapes=shapes, optimize=arg, memory_limit=lim)[0])
        case = {"k": "args", "terms": terms, "out": out, "sizes": [sizes[x] for x in range(1, L + 1)], "lim": [] if lim in (None, -1) else [lim], "calls": len(got), "e": "" if r[0] == "ok" else r[1],
                "given": norm_path(given), "path": norm_path(r[1]) if r[0] == "ok" else [], "got": {"ins": [], "out": [], "sizes": [], "lim": []}}
        if len(got) == 1:
            a, b, s, l = got[0]
            try:
                case["got"] = {"ins": [sorted(lab[ch] for ch in t) for t in a], "out": sorted(lab[ch] for ch in b), "sizes": [{"x": lab[ch], "s": int(v)} for ch, v in s.items()], "lim": [] if l is None else [int(l)]}
            except (KeyError, TypeError, AttributeError) as ex:
                case["e"] = type(ex).__name__
        ctx.emit(case, {"eq": eq, "name": arg, "got": str(got)[:300]})


def plan(c):
    r = c.model("MC_Registry", c.pick("MC_Registry.cfg", "MC_Registry4.cfg"), expect_min=5000)
    f = c.emitted(r, c.pick(12000, 60000))
    recs = c.record("spec", file=f) + c.record("rand") + c.record("args")
    c.judge("T_Registry", recs, name="histories")
    c.judge("T_Registry", c.record("alg"), states_per=2, name="algorithms")
