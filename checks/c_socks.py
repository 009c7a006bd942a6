"""S01-S03: SOCKS client operations."""
import vlib

ASAN = ["-fsanitize=address"]
KINDS = ["v4e", "v4h", "greet", "login", "v5e", "v5h"]


def some(rng, k, size=None):
    """A representable operation with random arguments."""
    def text(hi, lo=1):
        return [rng.randrange(1, 256) for _ in range(size if size is not None else rng.choice([lo, lo, 3, 20, hi, rng.randint(lo, hi)]))]
    addr, port, host, user, pwd, meths, cmd = [], 0, [], [], [], [], 0
    if k in ("v4e", "v5e"):
        addr = [rng.randrange(256) for _ in range(4 if k == "v4e" or rng.random() < .5 else 16)]
    if k[:2] in ("v4", "v5"):
        cmd, port = rng.choice([1, 1, 2] if k[1] == "4" else [1, 1, 2, 3]), rng.choice([0, 1, 80, 255, 256, 8080, 65535, rng.randrange(65536)])
    if k in ("v4h", "v5h"):
        host = text(255)
    if k in ("v4e", "v4h"):
        user = text(300, 0)
    if k == "login":
        user, pwd = text(255), text(255)
    if k == "greet":
        meths = [rng.choice([0, 1, 2, 2, 128, rng.randrange(255)]) for _ in range(rng.choice([1, 2, 3, rng.randint(1, 255)]))]
    return ["start", k, cmd, addr, port, host, user, pwd, meths, rng.randrange(2)]


def reply(rng, o, good=True):
    k = o[1]
    if k in ("v4e", "v4h"):
        r = [0, 90] + [rng.randrange(256) for _ in range(6)]
    elif k == "greet":
        r = [5, rng.choice(o[8])]
    elif k == "login":
        r = [1, 0]
    else:
        t = rng.choice([1, 3, 4])
        n = rng.choice([0, 1, 2, 9, 254, 255, rng.randrange(256)])
        r = [5, 0, 0, t] + ([n] if t == 3 else []) + [rng.randrange(256) for _ in range({1: 4, 3: n, 4: 16}[t])] + [rng.randrange(256) for _ in range(2)]
    if not good:
        i = rng.choice([0, 1, 1, 1, 3]) if len(r) > 3 else rng.randrange(2)
        r[i] = rng.randrange(256)
    return r


def pieces(rng, what, n):
    out = []
    while n > 0:
        c = rng.choice([1, 1, 2, 3, 5, 8, 50, 1000])
        out.append([what, c]); n -= c
    return out


def dialogue(rng, ops, good=.8, tail=True, fault=.1, ahead=.3):
    """Several operations on one stream, fragmented at random, the peer now and then ahead of the client."""
    s, late = [], []
    plan = [(o, reply(rng, o, rng.random() < good)) for o in ops]
    if rng.random() < ahead:
        s.append(["peer", sum((r for _, r in plan), []) + ([71, 69, 84] if tail else [])])
        plan = [(o, None) for o, _ in plan]
    for o, r in plan:
        s.append(o)
        w = pieces(rng, "w", rng.choice([0, 30, 700]))
        rd = pieces(rng, "r", rng.choice([0, 10, 300]))
        if rng.random() < fault:
            w = w[:rng.randrange(len(w) + 1)] + [["wf", rng.choice(["connection_reset", "broken_pipe"])]]
        s += w
        if r is not None:
            cut = rng.randrange(len(r) + 1) if rng.random() < fault else len(r)
            m = rng.randrange(cut + 1) if rng.random() < .4 else cut
            if m:
                s.append(["peer", r[:m]])
            s += rd[:len(rd) // 2]
            if m < cut:
                s.append(["peer", r[m:cut]])
            s += rd[len(rd) // 2:]
            if cut < len(r):
                s += [["w", 1000], ["r", 1000], ["r", 1000], ["r", 1000]] + ([["rf", rng.choice(["eof", "connection_reset"])]] if rng.random() < .8 else [])
        s.append(["done"])
    if tail and ahead < 1:
        s.append(["peer", [72, 73]])
    return s


def setup(ctx):
    return vlib.build("socks.cpp", config=ctx.scale("standalone-header-only", "asio"), flags=ASAN)


def cover(ctx, mode, maxlen=30):
    init, g = ctx.graph("MCSocks", "MCSocks_%s.cfg" % mode)
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=maxlen)
    ctx.notes.setdefault("transition_cover", {})[mode] = [done, total]
    return vlib.number(mode, w)


def S01(ctx):
    h, rng = setup(ctx), ctx.rng
    s = cover(ctx, "requests") + cover(ctx, "frag")
    for i in range(ctx.scale(600, 6000)):
        s.append(("wide%d" % i, dialogue(rng, [some(rng, rng.choice(KINDS)) for _ in range(rng.choice([1, 1, 2, 3]))], good=1)))
    if ctx.thorough:
        for k in KINDS:
            for n in range(0, 261):
                s.append(("len_%s_%d" % (k, n), dialogue(rng, [some(rng, k, n)], good=1, fault=0)))
    ctx.conform("socks", h, "TraceSocks", s, cfg="TraceSocks_S01.cfg")


def S02(ctx):
    h, rng = setup(ctx), ctx.rng
    s = cover(ctx, "replies", 60) + cover(ctx, "frag")
    for k in KINDS:                     # cut everywhere: the peer falls silent, closes or resets
        for rep in range(ctx.scale(2, 12)):
            o = some(rng, k, 2)
            r = reply(rng, o, rep % 2 == 0)
            for n in range(min(len(r), 40) + 1):
                for end in (None, "eof", "connection_reset"):
                    s.append(("cut_%s_%d_%d_%s" % (k, rep, n, end),
                              [o] + ([["peer", r[:n]]] if n else []) + [["w", 1000], ["r", 1000], ["r", 1000], ["r", 1000]] + ([["rf", end]] if end else [])))
    for i in range(ctx.scale(800, 8000)):
        s.append(("wide%d" % i, dialogue(rng, [some(rng, rng.choice(KINDS)) for _ in range(rng.choice([1, 1, 2, 3]))], good=.5)))
    ctx.conform("socks", h, "TraceSocks", s, cfg="TraceSocks_S02.cfg")


def S03(ctx):
    h, rng = setup(ctx), ctx.rng
    s = cover(ctx, "frag") + cover(ctx, "session")
    for n in range(256):                # every host name length, followed by the caller's data
        o = some(rng, rng.choice(["v5e", "v5h"]), 3)
        s.append(("name%d" % n, [o, ["w", 1000], ["peer", [5, 0, 0, 3, n] + [65 + i % 26 for i in range(n)] + [31, 144, 71, 69, 84]]] + pieces(rng, "r", rng.choice([0, n + 7]))))
    for i in range(ctx.scale(600, 6000)):
        k = rng.choice([["greet", "login", "v5h"], ["greet", "login", "v5e"], ["greet", "v5e"], ["v4e"], ["v4h"], ["v5e"], ["v5h", "v5h"]])
        s.append(("wide%d" % i, dialogue(rng, [some(rng, x) for x in k], good=1, fault=.03, ahead=.6)))
    ctx.conform("socks", h, "TraceSocks", s, cfg="TraceSocks_S03.cfg")
