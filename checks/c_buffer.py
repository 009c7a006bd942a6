"""B01-B03: linear buffers and the dynamic buffers over them."""
import vlib

BLOCKS = [37, 256, 4096, 5000, 32768, 65536, 100003]
ASAN = ["-fsanitize=address"]


def kinds(walks, rng, prefix, ks=(0, 1, 2)):
    return [("%s%d" % (prefix, i), [["config", ks[i % len(ks)]]] + w) for i, w in enumerate(walks)]


def wide_script(rng, fails, limits, length):
    """Scripts over larger contents than the bounded model has."""
    ops = []
    size = {1: None, 2: None}          # a guess of each buffer's size, to aim positions; the harness skips misfits
    nxt = [1]

    def data(n):
        r = [(nxt[0] + i) % 251 + 1 for i in range(n)]
        nxt[0] += n
        return r

    def ln():
        return rng.choice([0, 1, 1, 2, 3, 5, 8, 13, rng.randrange(40), rng.randrange(80) if rng.random() < .3 else 4])
    for _ in range(length):
        s = rng.choice([1, 2])
        t = 3 - s
        f = 1 if fails and rng.random() < .2 else 0
        if size[s] is None:
            c = rng.choice(["new", "newn", "newn", "cctor", "mctor"])
            if c == "new":
                ops.append(["new", s, rng.randrange(2)]); size[s] = 0
            elif c == "newn":
                n = ln()
                mx = rng.choice([n, n + 1, n + rng.randrange(30), 10 ** 8 + rng.randrange(99), 10 ** 9]) if limits else 10 ** 9
                ops.append(["newn", s, rng.randrange(2), data(n), mx, f]); size[s] = n
            elif size[t] is not None:
                ops.append([c, s, t] + ([f] if c == "cctor" else []))
                size[s] = size[t]
                if c == "mctor":
                    size[t] = 0
            continue
        c = rng.choice(["append"] * 4 + ["insert"] * 6 + ["erase"] * 4 + ["resize"] * 3 + ["reserve"] * 2 +
                       ["clear", "del", "cassign", "massign", "massign", "cassign", "self"])
        z = size[s]
        if limits and rng.random() < .1:
            ops.append(["huge", s, rng.randrange(5), rng.choice([0, 0, 1, z, max(0, z - 1), z + 1, 7])])
            continue
        if c == "append":
            n = ln(); ops.append([c, s, data(n), f]); size[s] += n
        elif c == "insert":
            n = ln(); ops.append([c, s, rng.choice([0, z, rng.randint(0, z)]), data(n), f, rng.randrange(2)]); size[s] += n
        elif c == "erase":
            a = rng.randint(0, z); b = rng.choice([a, min(z, a + 1), z, rng.randint(a, z)])
            ops.append([c, s, a, b, rng.randrange(2)] + ([1] if rng.random() < .5 else [])); size[s] -= b - a
        elif c == "resize":
            n = rng.choice([z, z + ln(), rng.randint(0, z)]); ops.append([c, s, n, rng.randrange(1, 250), f]); size[s] = n
        elif c == "reserve":
            ops.append([c, s, z + ln() * rng.choice([0, 1, 2]), f])
        elif c == "clear":
            ops.append([c, s]); size[s] = 0
        elif c == "del":
            ops.append([c, s]); size[s] = None
        elif c == "self":
            ops.append([rng.choice(["cassign", "massign"]), s, s])
        elif size[t] is not None:
            ops.append([c, s, t] + ([f] if c == "cassign" else []))
            size[s] = size[t]
            if c == "massign":
                size[t] = 0
    return ops


def run_lb(ctx, focus):
    h = vlib.build("linear_buffer.cpp", config=ctx.scale("standalone-header-only", "boost-asio"), flags=ASAN)
    cfg = "TraceLinearBuffer_%s.cfg" % focus
    scripts = []
    # every transition of the bounded models
    init, g = ctx.graph("MCLinearBuffer", "MCLinearBuffer_one.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover_one"] = [done, total]
    scripts += kinds(w, ctx.rng, "one")
    init, g = ctx.graph("MCLinearBuffer", "MCLinearBuffer_two.cfg")
    for i in init:
        pass
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover_two"] = [done, total]
    # moves and copies under every kind of allocator
    scripts += kinds(w, ctx.rng, "two")
    n = ctx.scale(300, 6000)
    for i in range(n):
        scripts.append(("wide%d" % i, [["config", i % 3]] +
                        wide_script(ctx.rng, focus == "limits", focus == "limits" or i % 2 == 0, 40)))
    # contents far beyond 16 bits: every byte of the specification stands for a block of bytes
    for i in range(ctx.scale(36, 300)):
        scripts.append(("big%d" % i, [["config", i % 3, ctx.rng.choice(BLOCKS)]] +
                        wide_script(ctx.rng, focus == "limits", focus == "limits" or i % 2 == 0, 30)))
    ctx.conform("linear_buffer", h, "TraceLinearBuffer", scripts, cfg=cfg)


def B01(ctx):
    run_lb(ctx, "content")


def B02(ctx):
    run_lb(ctx, "limits")


def dyn_script(rng, length):
    n0 = rng.choice([0, 0, 1, 5, 20])
    lim = rng.choice([10 ** 9, 10 ** 9, n0, n0 + rng.randrange(60), 10 ** 8 + rng.randrange(99)])
    ops = [["buffer", [i % 250 + 1 for i in range(n0)], lim]]
    nxt = [100]

    def data(n):
        r = [(nxt[0] + i) % 251 + 1 for i in range(n)]
        nxt[0] += n
        return r

    def view():
        v1 = rng.randrange(2)
        m = rng.choice([10 ** 9, 10 ** 9, 64, 30])
        ops.append(["view", m, v1] + ([1] if rng.random() < .5 else []))
        return v1

    def amount(z=12):
        return rng.choice([0, 1, 2, rng.randrange(z + 1), rng.randrange(z + 1), z, z * 3, -1, -2, -1 - rng.randrange(40)])
    v1 = view()
    for _ in range(length):
        c = rng.random()
        huge = rng.random() < .1 and lim < 10 ** 9
        if c < .05:
            v1 = view()
        elif c < .1:
            ops.append(["vmove"])
        elif c < .25:
            ops.append(["data", amount(), amount(), rng.randrange(2)])
        elif c < .45:
            ops.append(["consume", amount()])
        elif v1:
            if c < .75:
                d = data(rng.choice([0, 1, 3, 8, rng.randrange(50)]))
                e = rng.random() < .4
                ops.append(["prepare_ec" if e else "prepare", [] if huge else d, rng.randrange(2)] +
                           ([-1 - rng.choice([0, 1, n0, rng.randrange(60)])] if huge else []))
            else:
                ops.append(["commit", amount()])
        elif c < .75:
            ops.append(["grow", [], -1 - rng.choice([0, 1, n0, rng.randrange(60)])] if huge
                       else ["grow", data(rng.choice([0, 1, 3, 8, rng.randrange(50)]))])
        else:
            ops.append(["shrink", amount()])
    return ops


def B03(ctx):
    h = vlib.build("dyn_buffer.cpp", config=ctx.scale("standalone-header-only", "boost-asio"), flags=ASAN)
    init, g = ctx.graph("MCDynBuffer", "MCDynBuffer.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover"] = [done, total]
    scripts = vlib.number("cov", w)
    scripts += [("wide%d" % i, dyn_script(ctx.rng, 50)) for i in range(ctx.scale(300, 6000))]
    scripts += [("big%d" % i, [["config", ctx.rng.choice(BLOCKS)]] + dyn_script(ctx.rng, 40))
                for i in range(ctx.scale(36, 300))]
    ctx.conform("dynamic_buffer", h, "TraceDynBuffer", scripts)


# --- buffered streams

def bs_concrete(walk, rng):
    ops, nf, nr, cur = [], 0, 1000, 0
    for o in walk:
        if o[0] == "new":
            ops.append(["new", o[1], o[2], rng.choice("pa")])
        elif o[0] == "flush":
            ops.append(["flush", rng.choice(["clean", "stale", "throw"])] + list(o[1:]))
        elif o[0] == "fill":
            ops.append(["fill", rng.choice(["clean", "stale", "throw"])] + list(o[1:]))
        elif o[0] == "aflush":
            nf += 1
            cur = nf if o[1] == 1 else cur
            ops.append(["aflush", nf, rng.randrange(2)])
        elif o[0] == "cancel":
            ops.append(["cancel", cur if o[1] == 1 else nr])
        elif o[0] == "afill":
            nr += 1
            ops.append(["afill", nr, rng.randrange(2)])
        elif o[0] == "close":
            ops.append(["close", rng.choice(["ec", "throw"])])
        else:
            ops.append(list(o))
    return ops


def bs_wide(rng, length):
    big = rng.random() < .3
    ops = [["new"] + rng.choice([[0, 0], [0, 0], [700, 700], [20, 20], [5, 600], [0, 9]]) + [rng.choice("pa")]]
    errs = ["connection_reset", "eof", "try_again", "interrupted", "broken_pipe"]
    nf, nr = 0, 1000
    p_close = rng.choice([0, 0, 1, 3])
    p_cancel = rng.choice([0, 2, 6])

    def size():
        return rng.choice([1, 1, 2, 3, 5, 8, 13] + ([100, 511, 512, 513, 700, 1500] if big else []))

    def plan():
        r = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            r.append(size() if rng.random() < .7 else rng.choice(errs))
        return r
    for _ in range(length):
        c = rng.choices(["append", "flush", "aflush", "fstep", "poll", "fill", "afill", "rstep", "consume", "close", "reopen", "cancel"],
                        [16, 9, 7, 14, 14, 7, 6, 9, 8, p_close, 2 * p_close, p_cancel])[0]
        if c == "append":
            ops.append([c, size()])
        elif c in ("flush", "fill"):
            ops.append([c, rng.choice(["clean", "stale", "throw"])] + plan())
        elif c == "aflush":
            nf += 1
            ops.append([c, nf, rng.randrange(2)])
        elif c == "afill":
            nr += 1
            ops.append([c, nr, rng.randrange(2)])
        elif c in ("fstep", "rstep"):
            ops.append([c, size() if rng.random() < .8 else rng.choice(errs)])
            if rng.random() < .4:
                ops.append(["poll"])
        elif c == "consume":
            ops.append([c, size()])
        elif c == "cancel":
            ops.append([c, rng.choice([nf, nf, nf, max(0, nf - 1), max(0, nf - 2), nr, nr, nr - 1])])
        elif c == "close":
            ops.append([c, rng.choice(["ec", "throw"])])
        else:
            ops.append([c])
    return ops


def B04(ctx):
    h = vlib.build("buffered_stream.cpp", config=ctx.scale("standalone-header-only", "asio"), flags=ASAN)
    init, g = ctx.graph("MCBufferedStream", "MCBufferedStream.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=120)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("cov%d" % i, bs_concrete(x, ctx.rng)) for i, x in enumerate(w)]
    scripts += [("wide%d" % i, bs_wide(ctx.rng, 80)) for i in range(ctx.scale(200, 4000))]
    # longer contents: every byte of the specification stands for 256 or 512
    scripts += [("long%d" % i, [["blocks", ctx.rng.choice([256, 512])]] + bs_wide(ctx.rng, 60)) for i in range(ctx.scale(30, 300))]
    ctx.conform("buffered_stream", h, "TraceBufferedStream", scripts)
    if ctx.thorough:
        h = vlib.build("buffered_stream.cpp", config="boost-asio", flags=ASAN)
        ctx.conform("buffered_stream_boost", h, "TraceBufferedStream", scripts[::4])
