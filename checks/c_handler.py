"""H01-H03: handler wrappers."""
import vlib

ASAN = ["-fsanitize=address"]


def act(a):
    return ":".join(str(x) for x in a)


def uh_concrete(walk, rng):
    ops = []
    for o in walk:
        if o[0] in ("ctor", "assign"):
            ops.append([o[0], o[1], act(o[2]), act(o[3]), o[4], rng.randrange(3), rng.randrange(2)])
        else:
            ops.append(list(o))
    return ops


def uh_wide(rng, length):
    """Three objects, longer chains of handlers acting on each other's objects."""
    ops, have = [], set()
    S = [1, 2, 3]

    def a_call():
        k = rng.choice(["none", "throw", "set", "reset", "complete", "complete", "del", "move", "move"])
        if k in ("none", "throw"):
            return [k]
        s = rng.choice(S)
        return [k, s] + ([rng.choice([x for x in S if x != s])] if k == "move" else [])

    def a_drop():
        return rng.choice([["none"], ["none"], ["set", rng.choice(S)], ["reset", rng.choice(S)]])
    # which objects exist after a handler ran is only known to the code: the trace is cut where a script guesses wrong
    for _ in range(length):
        s = rng.choice(S)
        c = rng.choice(["ctor", "assign", "assign", "assign", "complete", "complete", "complete", "reset", "del", "empty", "ma", "ma", "mc"])
        if c in ("ctor", "assign"):
            ops.append([c, s, act(a_call() if rng.random() < .7 else ["none"]), act(a_drop()), int(rng.random() < .05),
                        rng.randrange(3), rng.randrange(2)])
            if ops[-1][4]:
                ops[-1][2] = ops[-1][3] = "none"
        elif c in ("ma", "mc"):
            ops.append([c, s, rng.choice(S)])
        else:
            ops.append([c, s])
    return ops


def H01(ctx):
    h = vlib.build("unique_handler.cpp", config=ctx.scale("standalone-header-only", "boost-asio"), flags=ASAN)
    init, g = ctx.graph("MCUniqueHandler", "MCUniqueHandler.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("cov%d" % i, uh_concrete(x, ctx.rng)) for i, x in enumerate(w)]
    scripts += [("wide%d" % i, uh_wide(ctx.rng, 60)) for i in range(ctx.scale(300, 5000))]
    ctx.conform("unique_handler", h, "TraceUniqueHandler", scripts)
    if ctx.thorough:
        h = vlib.build("unique_handler.cpp", config="asio", flags=ASAN)
        ctx.conform("unique_handler_asio", h, "TraceUniqueHandler", scripts[::3])


# --- composed operations and bound handlers

def _args(rng, a):
    return "-" if not a else "/".join(str(rng.randrange(1, 1000)) for _ in a)


def _layers(rng, ls):
    return ";".join("%s:%s:%s" % (x["k"], _args(rng, x["args"]), "/".join(map(str, sorted(x["work"]))) or "-") for x in ls)


def _dec(rng, ds):
    return ";".join("%s:%s" % (d["k"], _args(rng, d["args"])) for d in ds) or "-"


def _set(x):
    return x if isinstance(x, list) else list(x)


def wr_concrete(walk, rng):
    ops = []
    for o in walk:
        if o[0] == "make":
            ls = [{"k": x["k"], "args": x["args"], "work": _set(x["work"])} for x in o[3]]
            for x in ls:      # the order work is given in
                if len(x["work"]) == 2 and rng.random() < .5:
                    x["work"] = x["work"][::-1]
            ops.append(["make", o[1], o[2], rng.randrange(11, 16) if o[2] else 0, _layers(rng, ls), rng.randrange(2)])
        elif o[0] == "invoke":
            ops.append(["invoke", o[1], o[2], _dec(rng, o[3])])
        elif o[0] == "post":
            ops.append(["post", o[1], o[2], o[3], _dec(rng, o[4])])
        else:
            ops.append(list(o))
    return ops


def wr_wide(rng, length, depth):
    """Three wrappers; the script keeps track of the layers left in each of them."""
    w = {1: None, 2: None, 3: None}
    ops, pend = [], None

    def stack():
        while True:
            ls = []
            for _ in range(rng.choice([1, 1, 2, 2, 2, depth])):
                k = rng.choice("bc")
                a = [0, 0] if k == "b" and rng.random() < .5 else []
                n = rng.choice([0, 2]) if a else rng.choice([0, 1, 1] if k == "b" else [0, 1, 1, 2])
                ls.append({"k": k, "args": a, "work": rng.sample([1, 2], n)})
            if all(not (ls[i]["k"] == "b" and ls[i + 1]["k"] == "b" and ls[i]["args"]) for i in range(len(ls) - 1)):
                return ls

    def decide(ls):
        """Decisions for running ls, and what is left."""
        ds = []
        for i, x in enumerate(ls):
            if x["k"] == "b":
                continue
            k = rng.choice(["again", "again", "drop", "bound", "bound", "complete", "complete", "complete"])
            a = [0, 0] if rng.random() < .6 and not (i + 1 < len(ls) and ls[i + 1]["k"] == "b") else []
            ds.append({"k": k, "args": a if k in ("bound", "complete") else []})
            if k == "again":
                return ds, ls[i:]
            if k == "drop":
                return ds, None
            if k == "bound":
                return ds, [{"k": "b", "args": a, "work": x["work"]}] + ls[i + 1:]
        return ds, None
    for _ in range(length):
        free = [s for s in w if w[s] is None and not (pend and pend[1] == s)]
        held = [s for s in w if w[s] is not None]
        c = rng.choice(["make", "make", "move", "del", "invoke", "invoke", "invoke", "post", "poll", "poll"])
        if c == "make" and free:
            s = rng.choice(free)
            w[s] = stack()
            ex = rng.randrange(3)
            ops.append(["make", s, ex, rng.randrange(11, 16) if ex else 0, _layers(rng, w[s]), rng.randrange(2)])
        elif c == "move" and held and free:
            s, t = rng.choice(held), rng.choice(free)
            w[t], w[s] = w[s], None
            ops.append(["move", s, t])
        elif c == "del" and held and rng.random() < .4:
            s = rng.choice(held)
            w[s] = None
            ops.append(["del", s])
        elif c == "invoke" and held:
            s = rng.choice(held)
            t = rng.choice(free + ([s] if not (pend and pend[1] == s) else []) or [s])
            if pend and t == pend[1]:
                continue
            ds, left = decide(w[s])
            w[s] = None
            w[t] = left
            ops.append(["invoke", s, t, _dec(rng, ds)])
        elif c == "post" and held and not pend:
            s = rng.choice(held)
            t = rng.choice(free + [s])
            ds, left = decide(w[s])
            w[s] = None
            pend = (left, t)
            ops.append(["post", s, rng.choice([1, 2]), t, _dec(rng, ds)])
        elif c == "poll" and pend:
            # round trip: whichever context it is waiting in, it has run after this
            ops += [["poll", 1], ["poll", 2], ["poll", 1]]
            w[pend[1]] = pend[0]
            pend = None
    return ops


def _wrapper(ctx, cfg):
    ctx.model("MCWrapper", "MCWrapper_inv.cfg")
    depth = ctx.scale(2, 3)
    h = vlib.build("wrapper.cpp", config="standalone-header-only", flags=ASAN + ["-DDEPTH=%d" % depth])
    scripts = []
    for name in ("inv", "post"):
        init, g = ctx.graph("MCWrapper", "MCWrapper_%s.cfg" % name)
        w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=ctx.scale(120, 60))
        ctx.notes["transition_cover_" + name] = [done, total]
        cov = [(name + str(i), wr_concrete(x, ctx.rng)) for i, x in enumerate(w)]
        if name == "post" and not ctx.thorough:
            cov = ctx.rng.sample(cov, min(len(cov), 120))
        scripts += cov
    scripts += [("wide%d" % i, wr_wide(ctx.rng, 60, depth)) for i in range(ctx.scale(250, 4000))]
    ctx.conform("wrapper", h, "TraceWrapper", scripts, cfg=cfg)
    if ctx.thorough:
        h = vlib.build("wrapper.cpp", config="boost-asio", flags=["-DDEPTH=2"])
        ctx.conform("wrapper_boost", h, "TraceWrapper",
                    [("wb%d" % i, wr_wide(ctx.rng, 60, 2)) for i in range(1500)], cfg=cfg)


def H02(ctx):
    _wrapper(ctx, "TraceWrapper_H02.cfg")


def H03(ctx):
    _wrapper(ctx, "TraceWrapper_H03.cfg")
