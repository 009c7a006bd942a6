"""C01: cancellation tokens."""
import vlib

ASAN = ["-fsanitize=address"]
TSAN = ["-fsanitize=thread"]




def wide(rng, length):
    src, tok, ops = set(), set(), []
    for _ in range(length):
        c = rng.choice(["new", "issue", "issue", "issue", "cancel", "cancel", "destroy", "reset", "mc", "ma", "tcopy",
                        "tassign", "tdel", "del"])
        S, T = sorted(src), sorted(tok)
        fs, ft = [i for i in (1, 2, 3) if i not in src], [i for i in (1, 2, 3, 4) if i not in tok]
        if c == "new" and fs:
            s = rng.choice(fs); ops.append([c, s]); src.add(s)
        elif c == "issue" and S and ft:
            t = rng.choice(ft); ops.append([c, t, rng.choice(S)]); tok.add(t)
        elif c in ("cancel", "destroy", "reset") and S:
            ops.append([c, rng.choice(S)])
        elif c == "del" and S and rng.random() < .4:
            s = rng.choice(S); ops.append([c, s]); src.discard(s)
        elif c == "mc" and S and fs:
            d = rng.choice(fs); ops.append([c, rng.choice(S), d]); src.add(d)
        elif c == "ma" and S:
            ops.append([c, rng.choice(S), rng.choice(S)])
        elif c == "tcopy" and T and ft:
            d = rng.choice(ft); ops.append([c, rng.choice(T), d]); tok.add(d)
        elif c == "tassign" and T:
            ops.append([c, rng.choice(T), rng.choice(T)])
        elif c == "tdel" and T and rng.random() < .6:
            t = rng.choice(T); ops.append([c, t]); tok.discard(t)
    return ops


def many(rng):
    """Many cancels in a row, many tokens at a time: what counts them has to be wide enough."""
    out = []
    for n in [2, 3, 127, 128, 129, 255, 256, 257, 511, 512, 1024, 32768, 65535, 65536, 65537, 131072, 1 << 20]:
        out.append([["new", 1], ["issue", 1, 1], ["cancel", 1, n], ["issue", 2, 1], ["cancel", 1, n - 1], ["issue", 3, 1],
                    ["cancel", 1, n], ["cancel", 1, 1], ["issue", 4, 1]])
        m = min(n, 65537)
        out.append([["new", 1], ["issue", 1, 1, m], ["cancel", 1], ["issue", 2, 1, m], ["mc", 1, 2], ["issue", 3, 2, m],
                    rng.choice([["cancel", 2], ["del", 2], ["destroy", 2]]), ["reset", 1], ["issue", 4, 1]])
    return out


def C01(ctx):
    cfg = ctx.scale("standalone-header-only", "boost-asio")
    h = vlib.build("token.cpp", config=cfg, flags=ASAN)
    init, g = ctx.graph("MCToken", "MCToken_%d.cfg" % ctx.scale(2, 3))
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=80)
    ctx.notes["transition_cover"] = [done, total]
    scripts = vlib.number("cov", w) + [("wide%d" % i, wide(ctx.rng, 80)) for i in range(ctx.scale(300, 4000))]
    scripts += vlib.number("many", many(ctx.rng))
    ctx.conform("token", h, "TraceToken", scripts)
    # the same operations while other threads query, copy and drop the tokens
    ht = vlib.build_tsan("token.cpp", config=cfg)
    race = []
    for i, (k, ops) in enumerate(scripts[::ctx.scale(6, 12)]):
        race.append(("race" + k, [["race"] + o if o[0] in ("cancel", "destroy", "reset", "mc", "ma", "del", "issue")
                                  and ctx.rng.random() < .5 else o for o in ops]))
    ctx.conform("token_threads", ht, "TraceToken", race)
