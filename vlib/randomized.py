"""Scripted random optimizers and logging executors for the real RandomOptimizer."""
import threading, time
from vlib import gen
from vlib.finders import norm_path

NIN = 5
EQ = "ab,bc,cd,de,ef->af"
SHAPES = [(2, 3), (3, 4), (4, 5), (5, 6), (6, 7)]
LIN = [[list(s) for s in p] for p in gen.all_binary_paths(NIN)]


def lin_to_ssa(p):
    ids, nxt, res = list(range(NIN)), NIN, []
    for step in p:
        res.append(tuple(ids[i] for i in step))
        ids = [x for k, x in enumerate(ids) if k not in step] + [nxt]
        nxt += 1
    return res


SSA = [lin_to_ssa(p) for p in LIN]
INDEX = {tuple(tuple(s) for s in p): i for i, p in enumerate(LIN)}


def path_id(path):
    p = norm_path(path)
    if p is None:
        return -1
    return INDEX.get(tuple(tuple(sorted(s)) for s in p), -1)


START = time.time()


def now():
    return int((time.time() - START) * 1000)


class Fault(Exception):
    pass


class Interrupt(BaseException):
    """like KeyboardInterrupt: not an Exception"""


class Log:
    """state shared by the scripted trial function and the executors of one history"""

    def __init__(self, script):
        self.script = script          # list of (f, s, p)
        self.evs = []
        self.slow = {}                # trial number -> seconds
        self.fail = {}                # trial number -> exception class, in this call
        self.dry = None
        self.serial = True
        self.lock = threading.Lock()

    def trial(self, r, *args):
        if self.dry is not None:
            self.dry.append(r)
            return None
        t0 = now()
        if r in self.slow:
            time.sleep(self.slow[r])
        if r in self.fail:
            if self.serial:
                self.evs.append({"ev": "fail", "r": r, "t": now()})
            raise self.fail[r]("trial %d" % r)
        f, s, p = self.script[r] if 0 <= r < len(self.script) else (10 ** 6, 10 ** 6, 0)
        if self.serial:
            self.evs.append({"ev": "run", "r": r, "t0": t0, "t": now()})
        return SSA[p], f, s


class Fut:
    def __init__(self, ex, r, fn, args, kw):
        self.ex, self.r, self.fn, self.args, self.kw = ex, r, fn, args, kw
        self.state = "pending"
        self.val = self.exc = None

    def _run(self):
        if self.state in ("pending", "running"):
            try:
                self.val = self.fn(*self.args, **self.kw)
            except BaseException as e:
                self.exc = e
            self.state = "finished"

    def result(self, timeout=None):
        if self.ex.inner is not None:
            try:
                v = self.inner.result()
            except (Fault, Interrupt) as e:
                self.exc = e
        else:
            self._run()
            v = self.val
        if self.exc is not None:
            self.ex.log.evs.append({"ev": "fail", "r": self.r, "t": now()})
            raise self.exc
        self.ex.log.evs.append({"ev": "result", "r": self.r, "t": now()})
        return v

    def done(self):
        return self.inner.done() if self.ex.inner is not None else self.state not in ("pending", "running")

    def running(self):
        return self.state == "running"

    def cancelled(self):
        return self.state == "cancelled"

    def cancel(self):
        self.ex.log.evs.append({"ev": "cancel", "r": self.r})
        if self.ex.inner is not None:
            return self.inner.cancel()
        if self.state == "pending":
            self.state = "cancelled"
            return True
        return False


class Ex:
    """an executor as users may supply it: only submit, and futures with result and cancel"""

    def __init__(self, log, mode, inner=None, rng=None):
        self.log, self.mode, self.inner, self.rng = log, mode, inner, rng
        self.down = False

    def submit(self, fn, *args, **kw):
        self.log.dry = []
        fn(*args, **kw)
        r = self.log.dry[0] if len(self.log.dry) == 1 else -1
        self.log.dry = None
        f = Fut(self, r, fn, args, kw)
        if self.inner is not None:
            f.inner = self.inner.submit(fn, *args, **kw)
        elif self.mode == "eager":
            f._run()
        elif self.mode == "mixed":      # a job may have been started (cancel fails) or be finished when the search stops
            x = self.rng.randrange(3)
            if x == 0:
                f._run()
            elif x == 1:
                f.state = "running"
        self.log.evs.append({"ev": "submit", "r": r, "t": now(), "fin": f.state != "pending"})
        return f

    def shutdown(self, *a, **k):
        self.down = True


def build(oe, log, **kw):
    from opt_einsum.path_random import RandomOptimizer

    class Scripted(RandomOptimizer):
        def setup(self, inputs, output, size_dict):
            return log.trial, (inputs, output)
    return Scripted(**kw)


def shows(opt):
    has = bool(opt.costs)
    try:
        attr = path_id(opt.path) if has else -1
    except Exception:
        attr = -2
    num = lambda x: int(x) if x != float("inf") else -1
    return {"costs": [int(x) for x in opt.costs], "sizes": [int(x) for x in opt.sizes], "bf": num(opt.best["flops"]), "bs": num(opt.best["size"]), "attr": attr, "path": attr}


NETS = [(EQ, SHAPES), (EQ, [(2, 3), (3, 4), (4, 5), (5, 6), (6, 8)]), ("ab,bc,cd,de,ef->fa", SHAPES), ("ab,bc,cd,de,ef->a", SHAPES), ("ab,bc,cd,de,ef,f->a", SHAPES + [(7,)]),
        ("ab,bc,cd,ed,ef->af", [(2, 3), (3, 4), (4, 5), (6, 5), (6, 7)]), ("bc,ab,cd,de,ef->af", [(3, 4), (2, 3), (4, 5), (5, 6), (6, 7)])]


def call_caught(ctx, fn):
    try:
        return ctx.call(fn, 60)
    except Interrupt:
        ctx._off()
        return ("err", "Interrupt", "")


def play(ctx, oe, rng, minimize, script, calls, mode="lazy", inner=None, slow=0.008, maxms=3, via="direct"):
    """replay a history; calls: dicts foreign, rep, pre, par, stop"""
    log = Log(script)
    ex = Ex(log, mode, inner, rng)
    opt = build(oe, log, minimize=minimize)
    for call in calls:
        net = rng.choice([NETS[i] for i in (1, 3, 4, 6)]) if call["foreign"] else NETS[0]
        opt.max_repeats = call["rep"] or 2
        if call["par"] != (opt.parallel is not False):
            opt.parallel = ex if call["par"] else False
        opt.pre_dispatch = call["pre"]
        log.serial = not call["par"]
        base = len(opt.costs)
        mx = -1
        opt.max_time = None
        if call["stop"] and not call.get("fail"):
            log.slow[base + call["stop"] - 1] = slow
            opt.max_time, mx = maxms / 1000.0, maxms
        elif call.get("long"):
            opt.max_time, mx = 100.0, 100000
        want = ""
        if call.get("fail"):
            exc = rng.choice([Fault, Fault, Interrupt])
            want = exc.__name__
            log.fail = {base + call["stop"]: exc}
        log.evs.append({"ev": "call", "rep": opt.max_repeats, "pre": call["pre"], "par": call["par"], "t": now(), "max": mx})
        eq, shp = net
        ins, o = eq.split("->")
        ins = [frozenset(t) for t in ins.split(",")]
        sd = {ch: d for t, s in zip(eq.split("->")[0].split(","), shp) for ch, d in zip(t, s)}
        if via == "direct":
            r = call_caught(ctx, lambda: opt(ins, frozenset(o), sd))
        else:
            r = call_caught(ctx, lambda: oe.contract_path(eq, *shp, shapes=True, optimize=opt)[0])
        log.slow.clear()
        log.fail = {}
        ev = shows(opt)
        if r[0] == "ok":
            ev.update(ev="ret", t=now(), path=path_id(r[1]), e="", foreign=call["foreign"])
            if call["foreign"]:
                ev.update(ev="raise", e="none", want=want)
        else:
            ev.update(ev="raise", e=r[1], foreign=call["foreign"], want=want)
        log.evs.append(ev)
        if r[0] == "err" and r[1] == "Timeout":
            break
    return log


def emit(ctx, log, minimize, meta):
    ctx.emit({"min": minimize, "script": [{"f": f, "s": s, "p": p} for f, s, p in log.script], "evs": log.evs},
             dict(meta, minimize=minimize, log=[(e["ev"], e.get("r", "")) for e in log.evs][:60]))


def pad_script(rng, script, n):
    """outcomes for n trials; distinct paths"""
    ps = rng.sample(range(len(LIN)), n)
    out = []
    for i in range(n):
        if i < len(script):
            f, s = script[i]
        else:
            f, s = rng.choice([(1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (1, 1)])
        out.append((f, s, ps[i]))
    return out
