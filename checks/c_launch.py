"""H04: completion tokens."""
import vlib

ASAN = ["-fsanitize=address"]
EAGER = ["fn", "bound", "future", "detached"]
FILE = ["rd", "wr", "rdat", "wrat"]
SOCKS = ["v4e", "v4h", "greet", "login", "v5e", "v5h"]


def start(i, o, tok, rng):
    k = o["k"]
    h = ["start", i, k, tok]
    if k in FILE:
        return h + [o["off"], o["data"], o["sizes"]]
    if k == "conn":
        return h + [o["dest"], o.get("flags", rng.randrange(8))]
    if k in SOCKS:
        return h + [o["cmd"], o["addr"], o["port"], o["host"], o["user"], o["pass"], o["meths"], o["grant"], rng.randrange(2)]
    return h


def concrete(walk, rng):
    ops = [["new", [1, 2]]]
    for o in walk:
        if o[0] == "init":
            continue
        if o[0] == "start":
            ops.append(start(o[1], o[2], o[3], rng))
        else:
            ops.append(list(o))
    return ops


def some(rng, lo, hi):
    return [rng.randrange(1, 256) for _ in range(rng.randint(lo, hi))]


def an_op(rng):
    k = rng.choice(FILE * 2 + SOCKS * 2 + ["flush", "fill", "conn", "conn", "conn", "conn"])
    if k in FILE:
        sizes = [rng.randrange(5) for _ in range(rng.randrange(4))]
        return {"k": k, "off": rng.randrange(12), "data": some(rng, sum(sizes), sum(sizes)) if k[0] == "w" else [], "sizes": sizes}
    if k == "conn":
        return {"k": k, "dest": rng.choice([1, 2, 1, 2, 3])}
    if k in SOCKS:
        o = {"k": k, "cmd": 1, "addr": [], "port": rng.randrange(65536), "host": [], "user": [], "pass": [], "meths": [], "grant": int(rng.random() < .7)}
        if k in ("v4e", "v5e"):
            o["addr"] = some(rng, 4, 4) if k == "v4e" or rng.random() < .6 else some(rng, 16, 16)
        if k in ("v4h", "v5h"):
            o["host"] = some(rng, 1, rng.choice([4, 40]))
        if k[:2] == "v4":
            o["user"] = some(rng, 0, rng.choice([4, 40]))
        if k == "login":
            o["user"], o["pass"] = some(rng, 1, rng.choice([4, 40])), some(rng, 1, rng.choice([4, 40]))
        if k == "greet":
            o["meths"] = rng.sample(range(0, 255), rng.choice([1, 2, 3, 20]))
        return o
    return {"k": k}


def wide(rng, length):
    ops = [["new", some(rng, 0, 9)]]
    kept = {}
    for _ in range(length):
        c = rng.choice(["start", "start", "start", "launch", "launch", "spoil", "spoil", "drop", "put", "feed", "take", "cancel", "reopen"])
        free = [i for i in (1, 2, 3) if i not in kept]
        if c == "start" and free:
            o, i = an_op(rng), rng.choice(free)
            tok = rng.choice(EAGER[:3] if rng.random() < .9 else EAGER) if rng.random() < .35 else rng.choice(["lazy", "await", "await"] + ["deferred"] * 2 * (o["k"] == "conn"))
            ops.append(start(i, o, tok, rng))
            if tok not in EAGER:
                kept[i] = (o, tok)
        elif c == "spoil" and kept:
            ops.append(["spoil", rng.choice(sorted(kept)), rng.randrange(2)])
        elif c == "drop" and kept and rng.random() < .4:
            i = rng.choice(sorted(kept))
            del kept[i]
            ops.append(["drop", i])
        elif c == "launch" and kept:
            i = rng.choice(sorted(kept))
            o, tok = kept[i]
            keep = tok == "lazy" and o["k"] in FILE + ["flush"] and rng.random() < .3
            ops.append(["launch", i, rng.randrange(2), int(keep)])
            if not keep:
                del kept[i]
        elif c == "put":
            ops.append(["put", some(rng, 1, 9)])
        elif c in ("cancel", "reopen"):
            ops.append([c])
        elif c == "take":
            ops.append(["take", rng.randint(1, 9)])
        elif c == "feed":
            ops.append(["feed", some(rng, 1, 12)])
    return ops


def H04(ctx):
    if ctx.thorough:
        ctx.model("MCLaunch", "MCLaunch_deep.cfg")
    init, g = ctx.graph("MCLaunch", "MCLaunch.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover"] = [done, total]
    cov = [("cov%d" % i, concrete(x, ctx.rng)) for i, x in enumerate(w)]
    if not ctx.thorough:
        cov = ctx.rng.sample(cov, min(len(cov), 60))
    scripts = cov + [("wide%d" % i, wide(ctx.rng, 40)) for i in range(ctx.scale(600, 6000))]
    for cfg in ctx.scale(["standalone"], ["standalone", "boost-asio", "asio-header-only"]):
        h = vlib.build("tokens.cpp", config=cfg, flags=ASAN)
        ctx.conform("tokens_" + cfg, h, "TraceLaunch", scripts)
