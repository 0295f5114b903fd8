"""C12: threads and exits."""
from vlib import gen
from vlib.props.c11 import rec_spec, rec_rand, setup, mk, variants, emit  # noqa: F401
from vlib.threads import Free, exits, program

FILES = ("contract.py", "sharing.py", "parser.py", "dispatch.py", "blas.py", "helpers.py")


def rec_lines(ctx):
    """threads switched at source lines"""
    np, oe, lib = setup(ctx)
    rng = ctx.rng
    for _ in range(ctx.share(ctx.params["n"])):
        nt = rng.choice([2, 2, 3])
        pool = {r: [lib.array(np.array([rng.randint(0, 3) for _ in range(2 ** r)], float).reshape((2,) * r)) for _ in range(2)] for r in range(0, 4)}
        exprs = []
        while len(exprs) < 3:
            n = rng.randint(1, 3)
            terms, out, L = gen.network(rng, n, rng.randint(2, 4), max_rank=3, p_repeat=0.1, p_dup=0.2, p_scalar=0.02)
            if any(len(t) > 3 for t in terms):
                continue
            base = [rng.choice(pool[len(t)]) for t in terms]
            path = gen.rand_path(rng, n, 2) if n > 1 else "auto"
            for v in range(rng.randint(1, 2)):
                order, eq = variants(rng, terms, out, L) if v else (list(range(n)), gen.eq_of(terms, out, gen.names_for(rng, L)))
                ls = [base[i] for i in order]
                fn = mk(oe, eq, path, [a.shape for a in ls], rng.random() < 0.3)
                exprs.append((fn, program(lib, fn, ls), ls, eq))

        def cmds(depth):
            out = []
            for _ in range(rng.randint(1, 2)):
                if depth < 2 and rng.random() < 0.6 - 0.3 * depth:
                    out.append(("with", rng.choice([None, 0, 0, 1]), exits(rng), cmds(depth + 1)))
                else:
                    out.append(("run", rng.randrange(len(exprs))))
            return out
        scripts = [[("with", rng.choice([None, 0, 0, 1]), exits(rng), cmds(1))] + cmds(1) for _ in range(nt)]
        m = rng.choice([3, 12, 40])
        schedule = [(rng.randrange(nt), rng.randint(1, m)) for _ in range(rng.choice([6, 40, 200]))]
        fail = {rng.randint(1, nt): rng.randint(0, 3)} if rng.random() < 0.3 else {}
        w = Free(lib, nt)
        ctx.doing((scripts, schedule))
        res, lines = w.go(scripts, exprs, [{}, {}], schedule, fail, FILES)
        for r in res:
            if r[0] != "ok":
                raise RuntimeError("thread failed: %r" % (r,))
        emit(ctx, w, [1, 2], {"scripts": repr(scripts), "schedule": schedule, "exprs": [(e[3], [a.serial for a in e[2]]) for e in exprs], "lines": lines})
        lib.log.clear()


def plan(c):
    r = c.model("MC_Sharing", c.pick("MC_Sharing2.cfg", "MC_Sharing2L.cfg"), expect_min=50000)
    recs = c.record("spec", file=c.emitted(r, c.pick(3000, 40000)), threads=2)
    r = c.simulate("MC_Sharing", "MC_SharingSim.cfg", c.pick(1200, 12000), 18)
    recs += c.record("spec", file=c.emitted(r, c.pick(1200, 12000)), threads=3)
    c.judge("T_Share", recs, name="interleavings of the specification")
    c.judge("T_Share", c.record("rand", n=c.pick(1200, 12000), threads=3), name="random interleavings")
    c.model("MC_SharingFine", c.pick("MC_SharingFine.cfg", "MC_SharingFine3.cfg"), expect_min=15000)
    c.model("MC_SharingFine", "MC_SharingFineOwn.cfg", expect_min=2000)
    c.refuted("MC_SharingFine", "MC_SharingFineBad.cfg", "ObserverSound")
    c.judge("T_Share", c.record("lines", n=c.pick(1600, 16000)), name="threads switched at source lines")
    c.assumptions.append("threads are switched at calls of the array library and at source lines of opt_einsum; switches inside a source line are not explored")
