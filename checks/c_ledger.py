"""M01: nothing is left behind. Runs behaviours of the other models with everything the program holds counted."""
import concurrent.futures as cf
import vlib, c_async

QUICK = ["A05", "A06", "A02", "B02", "B04", "C01", "F03", "F06", "H01", "H02", "H04", "N01", "S02", "U01"]
MORE = ["A01", "A03", "A04", "B01", "B03", "F01", "F02", "F04", "F05", "H03", "S01", "S03"]


def ends(trace):
    # what does not end is the business of the other properties
    return [e for e in trace if e["op"] in ("ledger_before", "ledger_mark", "ledger_after")]


def rounds(setup, cycle, last):
    """The same over and over again, coming back to the same objects."""
    return [o for o in setup + 3 * (3 * cycle + [["mark"]]) + last if o[0] != "steal"]


def token_rounds(rng):
    keep, ops, tok = rng.choice([[1], [1, 2]]), [], set()
    for _ in range(rng.randint(3, 25)):
        c = rng.choice(["issue", "issue", "issue", "cancel", "destroy", "reset", "ma", "tcopy", "tassign", "tdel"])
        T, ft = sorted(tok), [t for t in (1, 2, 3, 4) if t not in tok]
        if c == "issue" and ft:
            ops.append([c, ft[0], rng.choice(keep)])
            tok.add(ft[0])
        elif c in ("cancel", "destroy", "reset"):
            ops.append([c, rng.choice(keep)])
        elif c == "ma":
            ops.append([c, rng.choice(keep), rng.choice(keep)])
        elif c == "tcopy" and T and ft:
            ops.append([c, rng.choice(T), ft[0]])
            tok.add(ft[0])
        elif c == "tassign" and T:
            ops.append([c, rng.choice(T), rng.choice(T)])
        elif c == "tdel" and T:
            t = rng.choice(T)
            ops.append([c, t])
            tok.discard(t)
    ops += [["tdel", t] for t in sorted(tok)] + [["reset", s] for s in keep if rng.random() < .7]
    return rounds([["new", s] for s in keep], ops, [["del", s] for s in keep])


def file_rounds(rng):
    s = c_async.Script(rng, True)
    nctx = rng.choice([1, 2])
    s.do(["ctx", nctx]).do(["nat", 1, 1])
    setup = len(s.ops)
    for _ in range(rng.randint(3, 25)):
        have, c = sorted(s.slot), rng.randint(1, nctx)
        f = rng.choice(have)
        free = [i for i in (2, 3) if i not in s.slot]
        k = rng.choice(["start", "start", "start", "start", "step", "step", "poll", "cancel", "close", "open", "nat", "ctor", "mc", "ma", "del", "own"])
        op = s.slot[f][1]
        if k == "start":
            s.do([k, f, s.slot[f][0], rng.choice([0, rng.randint(1, nctx)]), 0])
        elif k == "own" and f != 1:
            s.do(["start", f, s.slot[f][0], rng.choice([0, rng.randint(1, nctx)]), 2])
        elif k == "step":
            s.do(rng.choice([[k, c], [k, c], [k, c, rng.choice(["err", "intr", "cap"])]]))
        elif k == "poll":
            s.do([k, c])
        elif k == "cancel" and op or k == "close" or k == "open" and not op:
            s.do([k, f] + ([int(rng.random() < .8)] if k == "open" else []))
        elif k in ("nat", "ctor") and free:
            s.do([k, free[0], c] + ([rng.randrange(2), rng.randrange(2)] if k == "ctor" else []))
        elif k == "mc" and free:
            s.do([k, f, free[0]])
        elif k == "ma" and f != 1:
            s.do([k, f, rng.choice(have)])
        elif k == "del" and f != 1:
            s.do([k, f])
    for _ in range(2):
        for c in range(1, nctx + 1):
            for _ in range(sum(1 for e in s.q if e[0] == c and not e[4])):
                s.do(["step", c])
        for c in range(1, nctx + 1):
            s.do(["poll", c])
    for f in (2, 3):
        if f in s.slot:
            s.do(["del", f])
    # the file of the first slot, on the first context again
    s.do(["del", 1]).do(["nat", 1, 1])
    n = len(s.ops)
    return rounds(s.ops[:setup], s.ops[setup:n], s.finish()[n:])


def M01(ctx):
    import registry
    if not ctx.thorough:
        ctx.model("MCLedger", "MCLedger.cfg")
    build = vlib.build
    done = {}

    class Other(vlib.Ctx):
        def model(self, *a, **k):
            pass

        def conform(self, what, binary, module, scripts, cfg=None, env=None, timeout=20, retries=2, args=(), **kw):
            if self.prop == "H04":
                # what a future waits for is posted to Asio's system context, whose threads keep blocks for reuse
                scripts = [(k, [["start", o[1], o[2], "bound"] + o[4:] if o[0] == "start" and o[3] == "future" else o for o in ops])
                           for k, ops in scripts]
            n = ctx.scale(150, 1500)
            if len(scripts) > n:
                scripts = self.rng.sample(scripts, n)
            scripts = [("%s:%s" % (self.prop, k), o) for k, o in scripts]
            ctx.conform("%s:%s" % (self.prop, what), binary, "TraceLedger", scripts, env=env, timeout=2 * timeout, args=args, post=ends)
            done[self.prop] = done.get(self.prop, 0) + len(scripts)
            return {}, {}

    def counted(src, flags=(), extra=(), **kw):
        flags = [f for f in flags if not f.startswith("-fsanitize") and not f.startswith("-fno-sanitize")] + \
                ["-DLEDGER", "-DASIO_DISABLE_STD_ALIGNED_ALLOC", "-DBOOST_ASIO_DISABLE_STD_ALIGNED_ALLOC"]
        return build(src, flags=flags, extra=list(extra) + ["ledger.hpp"], **kw)

    vlib.build = counted
    try:
        def behave(p):
            registry.CHECKS[p](Other(p, "quick", ctx.seed))
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(behave, QUICK + (MORE if ctx.thorough else [])))
        n = ctx.scale(100, 1500)
        h = counted("token.cpp", config="standalone-header-only")
        ctx.conform("token_rounds", h, "TraceLedger", [("r%d" % i, token_rounds(ctx.rng)) for i in range(n)], post=ends)
        h = counted("async_file.cpp", config=ctx.scale("asio", "boost-asio"))
        ctx.conform("file_rounds", h, "TraceLedger", [("r%d" % i, file_rounds(ctx.rng)) for i in range(n)], post=ends)
    finally:
        vlib.build = build
    ctx.notes["behaviours_of"] = done
