"""C09: parallel random search."""
import concurrent.futures, json, multiprocessing, time
from vlib import gen, randomized as R
from vlib.finders import norm_path
from vlib.props.c03 import big


def rec_spec(ctx):
    import opt_einsum as oe
    rng = ctx.rng
    for line in ctx.mine(open(ctx.params["file"])):
        h = json.loads(line)
        n = sum(c["rep"] for c in h["calls"]) + 2
        script = R.pad_script(rng, [(o["f"], o["s"]) for o in h["script"]], n)
        log = R.play(ctx, oe, rng, h["min"], script, h["calls"], mode=rng.choice(["lazy", "eager", "mixed"]), via=rng.choice(["direct", "contract_path"]))
        R.emit(ctx, log, h["min"], {"calls": h["calls"]})


def rec_rand(ctx):
    """larger windows and numbers of trials"""
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(350, 4000))):
        calls = []
        for i in range(rng.randint(1, 4)):
            rep = rng.choice([1, 2, 3, 7, 8, 16, 33])
            calls.append({"foreign": i > 0 and rng.random() < 0.1, "rep": rep, "par": rng.random() < 0.85, "pre": rng.choice([1, 2, rep - 1 or 1, rep, rep + 1, 5, 128]), "stop": rng.choice([0, 0, 1, rep // 2, rep - 1]) if rng.random() < 0.5 else 0,
                          "long": rng.random() < 0.2})
            if rng.random() < 0.25:
                calls[-1].update(fail=True, stop=rng.randrange(rep))
        n = sum(c["rep"] for c in calls) + 2
        pool = rng.choice([[1, 2], [1, 2, 3, 4, 5], list(range(1, 100))])
        script = [(rng.choice(pool), rng.choice(pool), p) for p in rng.sample(range(len(R.LIN)), min(n, len(R.LIN)))]
        script += [(7, 7, 0)] * (n - len(script))
        mn = rng.choice(["flops", "size"])
        log = R.play(ctx, oe, rng, mn, script, calls, mode=rng.choice(["lazy", "eager", "mixed"]), via=rng.choice(["direct", "contract_path"]))
        R.emit(ctx, log, mn, {"calls": calls})


def rec_threads(ctx):
    """a real thread pool with jobs finishing out of order"""
    import opt_einsum as oe
    rng = ctx.rng
    with concurrent.futures.ThreadPoolExecutor(4) as tp:
        for _ in range(ctx.share(ctx.pick(80, 800))):
            calls = [{"foreign": False, "rep": rng.choice([3, 6, 9]), "par": True, "pre": rng.choice([2, 3, 4, 20]), "stop": 0} for _ in range(2)]
            if rng.random() < 0.3:
                calls[0].update(fail=True, stop=rng.randrange(calls[0]["rep"]))
            n = sum(c["rep"] for c in calls) + 2
            script = [(rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), p) for p in rng.sample(range(len(R.LIN)), n)]
            mn = rng.choice(["flops", "size"])
            orig = R.Log.trial
            delays = {r: rng.choice([0, 0.001, 0.003]) for r in range(n)}

            class Delegate:
                def submit(self, fn, *a):
                    def job():
                        time.sleep(rng.choice([0, 0.001, 0.003]))
                        return fn(*a)
                    return tp.submit(job)
            log = R.play(ctx, oe, rng, mn, script, calls, mode="threads", inner=Delegate())
            R.emit(ctx, log, mn, {"calls": calls, "executor": "threads"})


# ------------------------------------------------------------------ real process pools and who owns them
def det_trial(r, n):
    f = (r * 7919 + 13) % 101
    return R.SSA[(r * 31) % len(R.SSA)], f, (r * 104729 + 5) % 57


class CountingPool:
    def __init__(self):
        self.tp = concurrent.futures.ThreadPoolExecutor(2)
        self.jobs = 0
        self.down = False

    def submit(self, fn, *a, **k):
        if self.down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        self.jobs += 1
        return self.tp.submit(fn, *a, **k)

    def shutdown(self, *a, **k):
        self.down = True


def alive():
    return len(multiprocessing.active_children())


def gone(limit=5.0):
    t = time.time()
    while alive() and time.time() - t < limit:
        time.sleep(0.02)
    return alive()


def keep_pools(kept):
    """hold on to every process pool that is created: one that is merely dropped is not shut down, whatever the garbage collector does"""
    cls = concurrent.futures.ProcessPoolExecutor
    init = cls.__init__

    def held(self, *a, **k):
        init(self, *a, **k)
        kept.append(self)
    cls.__init__ = held


def rec_pools(ctx):
    import gc
    import opt_einsum as oe
    kept = []
    keep_pools(kept)
    from opt_einsum.path_random import RandomOptimizer

    class Det(RandomOptimizer):
        def setup(self, inputs, output, size_dict):
            return det_trial, (len(inputs),)
    rng = ctx.rng
    ins = [frozenset(t) for t in R.EQ.split("->")[0].split(",")]
    o = frozenset(R.EQ.split("->")[1])
    sd = {ch: d for t, s in zip(R.EQ.split("->")[0].split(","), R.SHAPES) for ch, d in zip(t, s)}
    scripts = [["own", "S", "off", "S", "del"], ["own", "S", "del"], ["user", "S", "off", "S", "del"], ["user", "S", "del"], ["own", "S", "user", "S", "own", "S", "off", "del"],
               ["own", "S", "own", "S", "off"], ["user", "S", "own", "S", "del"], ["own", "off", "S", "del"], ["true", "S", "off", "S", "del"], ["user", "user", "S", "S", "del"]]
    k = ctx.share(ctx.pick(16, 96))
    for it in range(k):
        sc = scripts[(it * ctx.nshards + ctx.shard) % len(scripts)]
        rep = rng.choice([2, 5, 9])
        evs = []
        up = CountingPool()
        opt = Det(max_repeats=rep, pre_dispatch=rng.choice([1, 3, 64]))
        nsearch = 0
        want = []
        ser = Det(max_repeats=rep)
        for step in sc:
            e = {"op": "", "to": "off", "alive": 0, "usable": True, "jobs": 0, "costs": [], "e": "", "n": 1}
            ctx.doing(("pool", sc, step))
            before = up.jobs
            if step == "S":
                nsearch += 1
                want.append([big(x) for x in (ser(ins, o, sd), ser.costs)[1]])
                r = ctx.call(lambda: opt(ins, o, sd), 60)
                e.update(op="search", n=nsearch, alive=alive(), costs=[big(x) for x in opt.costs], jobs=up.jobs - before)
            elif step == "del":
                def kill():
                    nonlocal opt
                    del opt
                    gc.collect()
                r = ctx.call(kill)
                e.update(op="del", alive=gone())
            else:
                def setit():
                    opt.parallel = {"own": 2, "true": True, "user": up, "off": False}[step]
                r = ctx.call(setit, 60)
                # worker processes of a new pool start with its first job
                e.update(op="set", to={"true": "own"}.get(step, step), alive=gone() if alive() else 0)
            if r[0] == "err":
                e["e"] = r[1]
            e["usable"] = not up.down
            evs.append(e)
        if "opt" in dir():
            try:
                opt.parallel = False
            except Exception:
                pass
        opt = None
        gc.collect()
        up.tp.shutdown()
        for p in kept:
            p.shutdown(wait=False, cancel_futures=True)
        kept.clear()
        for p in multiprocessing.active_children():
            p.terminate()
        ctx.emit({"rep": rep, "evs": evs, "want": want}, {"settings": sc, "repeats": rep, "events": [(e["op"], e["to"], e["alive"], e["jobs"], e["e"]) for e in evs]})


def rec_greedy(ctx):
    """RandomGreedy on a real process pool against the serial search, as one history for T_Pool"""
    import opt_einsum as oe
    rng = ctx.rng
    for _ in range(ctx.share(ctx.pick(8, 64))):
        n = rng.choice([6, 9, 12])
        terms, out, L = gen.network(rng, n, int(1.4 * n), max_rank=4, kind="graph", p_out=0.1)
        sizes = {x: rng.choice([2, 3, 5, 10]) for x in range(1, L + 1)}
        names = gen.names_for(rng, L)
        ins = [frozenset(names[x - 1] for x in t) for t in terms]
        o = frozenset(names[x - 1] for x in out)
        sd = {names[x - 1]: s for x, s in sizes.items()}
        rep = rng.choice([3, 8, 20])
        mn = rng.choice(["flops", "size"])
        a = oe.RandomGreedy(max_repeats=rep, minimize=mn)
        b = oe.RandomGreedy(max_repeats=rep, minimize=mn, parallel=2, pre_dispatch=rng.choice([1, 2, 4, 50]))
        evs, want = [], []
        flat = lambda opt: [big(x) for x in opt.costs] + [big(x) for x in opt.sizes] + [big(opt.best["flops"]), big(opt.best["size"])] + norm_path(opt.path)
        for j in range(2):
            ctx.doing(("RandomGreedy parallel", gen.eq_of(terms, out, names)))
            a(ins, o, sd)
            want.append(flat(a))
            r = ctx.call(lambda: b(ins, o, sd), 60)
            if j == 0:
                evs.append({"op": "set", "to": "own", "alive": 0, "usable": True, "jobs": 0, "costs": [], "e": "", "n": 1})
            evs.append({"op": "search", "to": "own", "alive": alive(), "usable": True, "jobs": 0, "costs": flat(b) if r[0] == "ok" else [], "e": "" if r[0] == "ok" else r[1], "n": j + 1})
        b.parallel = False
        evs.append({"op": "set", "to": "off", "alive": gone(), "usable": True, "jobs": 0, "costs": [], "e": "", "n": 1})
        ctx.emit({"rep": rep, "evs": evs, "want": want}, {"eq": gen.eq_of(terms, out, names), "repeats": rep, "minimize": mn})


def plan(c):
    r = c.model("MC_RandomSearch", c.pick("MC_RandomSearch.cfg", "MC_RandomSearch3.cfg"), expect_min=300000)
    f = c.emitted(r, c.pick(2000, 24000), rng_seed=9)
    recs = c.record("spec", file=f) + c.record("rand") + c.record("threads", shards=4)
    c.judge("T_Random", recs, states_per=lambda rs: sum(len(x["case"]["evs"]) + 2 for x in rs))
    recs = c.record("pools", shards=4) + c.record("greedy", shards=4)
    c.judge("T_Pool", recs, states_per=lambda rs: sum(len(x["case"]["evs"]) + 2 for x in rs))
