"""E01: error codes."""
import vlib

ENUMS = {"url": 4, "socks": 8}
CATS = ["url", "socks", "system", "generic", "misc"]
HOWS = ["enum", "function", "early", "assign", "number", "set", "thread"]
REPLIES = {"v4": ([90, 91, 92, 93, 0, 255], 0), "greet": ([0, 2, 255], 5), "login": ([0, 1, 255], 1), "v5": ([0, 1, 7, 9, 99, 255], 5)}


def looks(rng, slots):
    ops = []
    for i in slots:
        ops.append(["look", i, rng.randrange(2)])
        cat = rng.choice(["url", "socks"])
        ops.append(["same", i, cat, rng.randrange(ENUMS[cat]), rng.randrange(2)])
        ops.append(["errc", i, rng.choice([1, 2, 3, 4, 5, 6, 7, 22])])
    ops.append(["equal", rng.choice(slots), rng.randrange(4)])
    return ops


def concrete(walk, rng):
    ops = [["new"]]
    for o in walk:
        if o[0] == "init":
            continue
        o = list(o)
        if o[0] == "make":
            o = o[:4] + [rng.choice(HOWS) if o[4] == "enum" else rng.choice(["number", "set"]), rng.randrange(2)]
        elif o[0] in ("throw", "parse", "socks"):
            o.append(rng.randrange(2))
        ops.append(o)
        ops += looks(rng, [0, 1])
    return ops


def table():
    """every code in every way, against every enumerator, everywhere"""
    for cat, n in ENUMS.items():
        for how in HOWS:
            for u in (0, 1):
                for v in range(n):
                    ops = [["new"], ["make", 0, cat, v, how, u], ["make", 2, cat, v, "enum", 1 - u], ["equal", 0, 2]]
                    for c2 in CATS:
                        ops += [["make", 1, c2, v, "number", u], ["equal", 0, 1]]
                    for uu in (0, 1):
                        ops.append(["look", 0, uu])
                        for c2, m in ENUMS.items():
                            ops += [["same", 0, c2, w, uu] for w in range(m)]
                    ops += [["errc", 0, w] for w in range(1, 40)]
                    ops += [["throw", 0, 3, u], ["equal", 0, 3], ["look", 3, 1 - u]]
                    yield ops
        for v in [-1, n, n + 1, 77, 256, -2**31, 2**31 - 1]:
            yield [["new"], ["make", 0, cat, v, "number", 0], ["make", 1, cat, v, "set", 1], ["equal", 0, 1], ["look", 0, 1], ["look", 1, 0]] + \
                  [["same", 0, cat, w, 0] for w in range(n)]
    for u in (0, 1):
        for what, (rs, good) in REPLIES.items():
            for r in rs:
                for ver in (good, 0, 1, 4, 5, 255):
                    yield [["new"], ["socks", 0, what, r, ver, u], ["look", 0, 1 - u]] + [["same", 0, "socks", w, 1 - u] for w in range(8)]
        for what in ("good", "space", "nohost", "port"):
            for t in (0, 1):
                yield [["new"], ["parse", 0, what, t, u], ["look", 0, 1 - u]] + [["same", 0, "url", w, 1 - u] for w in range(4)]


def E01(ctx):
    init, g = ctx.graph("MCCodes", "MCCodes.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=80)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("cov%d" % i, concrete(x, ctx.rng)) for i, x in enumerate(w)]
    if not ctx.thorough:
        scripts = ctx.rng.sample(scripts, min(len(scripts), 150))
    scripts += [("table%d" % i, ops) for i, ops in enumerate(table())]
    for cfg in ["standalone", "asio-header-only", "boost-asio", "standalone-header-only"] if ctx.thorough else ["standalone", "asio-header-only", "boost-asio"]:
        # optimized, a translation unit uses what it defines itself
        h = vlib.build("codes.cpp", config=cfg, extra=["codes.hpp"], more=["codes_b.cpp"], opt="-O2" if "header-only" in cfg else "-O0")
        ctx.conform("codes_" + cfg, h, "TraceCodes", scripts)
