"""Real threads under a controller: exactly one of them runs at a time, and each stops inside the recording library whenever
an operation starts, until the controller lets it finish or makes it raise."""
import queue, threading


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def exits(rng):
    """ways to leave a context"""
    k = rng.random()
    return None if k < 0.5 else rng.choice([Boom("x"), BaseBoom("x"), KeyboardInterrupt(), SystemExit(1), GeneratorExit(), StopIteration(), RuntimeError("x")])


class Worker:
    def __init__(self, world, t):
        self.world, self.t = world, t
        self.cmd = queue.Queue()
        self.back = queue.Queue()
        self.state = "idle"          # idle / exec
        self.cms = []
        self.thread = threading.Thread(target=self.loop, daemon=True, name="worker")       # all of the same name
        self.thread.start()

    def loop(self):
        while True:
            f = self.cmd.get()
            if f is None:
                return
            try:
                f()
            except BaseException as e:     # pragma: no cover
                self.world.broken = repr(e)
            self.state = "idle"
            self.back.put("idle")

    def send(self, f):
        self.cmd.put(f)
        return self.wait()

    def wait(self):
        return self.back.get(timeout=60)

    # called by the gate, in the worker's thread
    def stop_here(self):
        self.state = "exec"
        self.back.put("exec")
        return self.cmd.get()

    def resume(self, how):
        self.state = "running"
        self.cmd.put(how)
        return self.wait()


class World:
    """executes commands and keeps the log that T_Share judges"""
    def __init__(self, lib, nthreads, exprs, leaves, gated=True):
        from opt_einsum import sharing
        self.sharing = sharing
        self.lib, self.exprs, self.leaves = lib, exprs, leaves
        self.evs, self.cid, self.keep = [], {}, []
        self.byname = {}
        self.broken = None
        self.gated = gated
        self.workers = {t: Worker(self, t) for t in range(1, nthreads + 1)}
        self.n = nthreads
        lib.gate = self

    # -- gate
    def me(self):
        for w in self.workers.values():
            if w.thread.ident == threading.get_ident():
                return w
        return None

    def begin(self, op):
        w = self.me()
        if w is None:
            return
        self.evs.append({"e": "exec", "t": w.t, "op": {"kind": op["kind"], "args": op["args"], "spec": op["spec"]}})
        how = w.stop_here() if self.gated else "ok"
        if how == "raise":
            self.evs.append({"e": "fail", "t": w.t})
            raise Boom("planned") if len(self.evs) % 3 else BaseBoom("planned")

    def end(self, op):
        w = self.me()
        if w is None:
            return
        self.evs.append({"e": "done", "t": w.t, "res": op["res"]})

    # -- observations
    def cache_id(self, c):
        if id(c) not in self.cid:
            self.cid[id(c)] = len(self.cid) + 1
            self.keep.append(c)
        return self.cid[id(c)]

    def seen(self):
        sh = bool(self.sharing.currently_sharing())
        try:
            inner = self.cache_id(self.sharing.get_sharing_cache())
        except Exception:
            inner = 0
        return {"sh": sh, "in": inner}

    # -- commands, executed in the worker's thread
    def enter(self, t, cache):
        w = self.workers[t]

        def f():
            ev = {"e": "enter", "t": t, "cache": 0 if cache is None else self.cache_id(cache), "y": 0, "out": "ok"}
            try:
                cm = self.sharing.shared_intermediates(cache) if cache is not None else self.sharing.shared_intermediates()
                y = cm.__enter__()
                w.cms.append(cm)
                self.last = y
                ev["y"] = self.cache_id(y)
            except Exception as e:
                ev["out"] = type(e).__name__
                self.last = {}
            ev.update(self.seen())
            self.evs.append(ev)
        w.send(f)

    def exit(self, t, exc=None):
        w = self.workers[t]

        def f():
            ev = {"e": "exit", "t": t, "swallowed": False, "out": "ok"}
            cm = w.cms.pop()
            try:
                if exc is None:
                    cm.__exit__(None, None, None)
                else:
                    try:
                        raise exc
                    except BaseException as e:
                        ev["swallowed"] = bool(cm.__exit__(type(e), e, e.__traceback__))
            except BaseException as e:
                if e is not exc:
                    ev["out"] = type(e).__name__
            ev.update(self.seen())
            self.evs.append(ev)
        w.send(f)

    def run(self, t, p):
        w = self.workers[t]
        fn, prog, leaves = self.exprs[p]

        def f():
            self.evs.append({"e": "run", "t": t, "prog": prog, "leaves": [a.serial for a in leaves]})
            out, res = "ok", 0
            try:
                res = getattr(fn(*leaves), "serial", 0)
            except BaseException as e:
                out = type(e).__name__
            ev = {"e": "ret", "t": t, "out": out, "res": res}
            ev.update(self.seen())
            self.evs.append(ev)
        return w.send(f)

    def finish(self, t, how="ok"):
        if self.workers[t].state == "exec":
            self.workers[t].resume(how)

    def settle(self, t):
        while self.workers[t].state == "exec":
            self.workers[t].resume("ok")

    def close(self):
        for t, w in self.workers.items():
            self.settle(t)
            while w.cms:
                self.exit(t)
        for w in self.workers.values():
            w.cmd.put(None)
            w.thread.join(10)
        from vlib.reclib import Gate
        self.lib.gate = Gate()

    def counts(self):
        out = []
        for c in self.keep:
            n = self.sharing.count_cached_ops(c)
            out.append({"cache": self.cid[id(c)], "n": {k: int(n.get(k, 0)) for k in ("einsum", "tensordot", "transpose")}})
        return out


def program(lib, fn, leaves):
    """the operations a contraction performs outside any context"""
    k = len(lib.log)
    fn(*leaves)
    where = {}
    for i, a in enumerate(leaves):
        where.setdefault(a.serial, i + 1)
    prog = []
    for j, op in enumerate(lib.log[k:]):
        prog.append({"kind": op["kind"], "refs": [where[s] for s in op["args"]], "spec": op["spec"]})
        where[op["res"]] = -(j + 1)
    return prog


class Free:
    """threads that are switched at any source line (sched.Sched) instead of at the operations; same log"""
    gated = False

    def __init__(self, lib, n):
        from opt_einsum import sharing
        self.sharing, self.lib, self.n = sharing, lib, n
        self.evs, self.cid, self.keep, self.who = [], {}, [], {}
        self.broken = None
        lib.gate = self

    cache_id, seen, counts = World.cache_id, World.seen, World.counts

    def begin(self, op):
        t = self.who.get(threading.get_ident())
        if t:
            self.evs.append({"e": "exec", "t": t, "op": {"kind": op["kind"], "args": op["args"], "spec": op["spec"]}})
            if t in self.fail and self.fail[t] == self.count.setdefault(t, 0):
                self.count[t] += 1
                self.evs.append({"e": "fail", "t": t})
                raise Boom("planned")
            self.count[t] = self.count.get(t, 0) + 1

    def end(self, op):
        t = self.who.get(threading.get_ident())
        if t:
            self.evs.append({"e": "done", "t": t, "res": op["res"]})

    def script(self, t, cmds, exprs, caches):
        """cmds: ("with", cache index or None, exception or None, [commands]) / ("run", expression)"""
        def call(i):
            fn, prog, leaves = exprs[i][:3]
            self.evs.append({"e": "run", "t": t, "prog": prog, "leaves": [a.serial for a in leaves]})
            out, res = "ok", 0
            try:
                res = getattr(fn(*leaves), "serial", 0)
            except Exception as e:
                out = type(e).__name__
            ev = {"e": "ret", "t": t, "out": out, "res": res}
            ev.update(self.seen())
            self.evs.append(ev)

        def do(cmds):
            for c in cmds:
                if c[0] == "run":
                    call(c[1])
                    continue
                _, k, exc, body = c
                ev = {"e": "exit", "t": t, "swallowed": exc is not None, "out": "ok"}
                try:
                    with (self.sharing.shared_intermediates() if k is None else self.sharing.shared_intermediates(caches[k])) as y:
                        e2 = {"e": "enter", "t": t, "cache": 0 if k is None else self.cache_id(caches[k]), "y": self.cache_id(y), "out": "ok"}
                        e2.update(self.seen())
                        self.evs.append(e2)
                        do(body)
                        if exc is not None:
                            raise exc
                except BaseException as e:
                    ev["swallowed"] = False
                    if e is not exc:
                        ev["out"] = type(e).__name__
                ev.update(self.seen())
                self.evs.append(ev)

        def f():
            self.who[threading.get_ident()] = t
            try:
                do(cmds)
            finally:
                del self.who[threading.get_ident()]
        return f

    def go(self, scripts, exprs, caches, schedule, fail, files):
        from vlib.sched import Sched
        self.fail, self.count = fail, {}
        for c in caches:
            self.cache_id(c)
        s = Sched([self.script(t + 1, cmds, exprs, caches) for t, cmds in enumerate(scripts)], schedule, files)
        out = s.run()
        from vlib.reclib import Gate
        self.lib.gate = Gate()
        return out, s.lines
