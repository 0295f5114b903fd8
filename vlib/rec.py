"""Recorder side: runs inside /opt/venv's Python with /repo first on the path and executes the real code."""
import contextlib, importlib, json, os, random, signal, sys, time, traceback


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


class Ctx:
    def __init__(self, pid, part, seed, tier, shard, nshards, out, params):
        self.pid, self.part, self.seed, self.tier = pid, part, seed, tier
        self.shard, self.nshards, self.out, self.params = shard, nshards, out, params
        self.quick = tier != "thorough"
        self.rng = random.Random("%s/%s/%d/%d" % (pid, part, seed, shard))
        self.f = open(out, "w")
        self.now = open(out + ".now", "w")
        self.n = 0
        self.t0 = time.time()
        self.timeouts, self.slowest = 0, (0.0, 0.0)
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)

    def elapsed(self):
        return time.time() - self.t0

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def share(self, n):
        """this shard's part of n items"""
        return n // self.nshards + (1 if self.shard < n % self.nshards else 0)

    def mine(self, items):
        for i, x in enumerate(items):
            if i % self.nshards == self.shard:
                yield x

    def doing(self, what):
        self.now.seek(0)
        self.now.truncate()
        self.now.write(str(what)[:2000])
        self.now.flush()

    def call(self, fn, limit=60):
        """run fn; ('ok', value) or ('err', exception class name, message).  The limit is on processor time, so that a busy
        machine does not matter; three times as much real time ends a call that waits for ever."""
        limit = max(limit, 60)
        t0, c0 = time.time(), time.process_time()
        signal.setitimer(signal.ITIMER_PROF, limit)
        signal.setitimer(signal.ITIMER_REAL, 3 * limit)
        try:
            v = fn()
            self._off()
            return ("ok", v)
        except CaseTimeout:
            self.timeouts += 1
            return ("err", "Timeout", "no answer within %ss" % limit)
        except RecursionError as e:
            return ("err", "RecursionError", str(e)[:200])
        except Exception as e:
            self._off()
            return ("err", type(e).__name__, str(e)[:300])
        finally:
            self._off()
            self.slowest = max(self.slowest, (time.process_time() - c0, time.time() - t0))

    def _off(self):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)

    def emit(self, case, meta=None):
        self.f.write(json.dumps({"case": case, "meta": meta}) + "\n")
        self.n += 1
        if self.timeouts:       # one call without an answer is enough to report: do not wait for more of them
            self.close()
            sys.stdout.flush()
            os._exit(0)

    def close(self):
        self.f.close()
        with open(self.out + ".slow", "w") as g:
            g.write("%.2f %.2f" % self.slowest)


def main():
    pid, part, seed, tier, shard, nshards, out, params = sys.argv[1:9]
    ctx = Ctx(pid, part, int(seed), tier, int(shard), int(nshards), out, json.loads(params))
    import opt_einsum
    if not opt_einsum.__file__.startswith("/repo/"):
        raise SystemExit("wrong copy of opt_einsum: " + opt_einsum.__file__)
    mod = importlib.import_module("vlib.props." + pid.lower())
    getattr(mod, "rec_" + part)(ctx)
    ctx.close()


if __name__ == "__main__":
    main()
