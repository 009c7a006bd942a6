"""U01: URLs."""
import itertools
import vlib

ASAN = ["-fsanitize=address"]
CHARS = ["a", "1", ":", "/", "?", "#", "@", "[", "]", "%", ".", " "]
PIECES = ["http", "://", "a", ":", "/", "?", "#", "@", "[", "]", "%25", "::1", "65535", "65536", "0", "_", "~", ";", "\xc8", "*", "file:", "user:pw@", "[::1]", "host.example", " "]
AROUND = ["%s", "h%s", "h%s:x", "h:%s", "h:/%s", "h://%s", "h://u%s@h", "h://h%s", "h://h%s/", "h://[%s]", "h://[fe80::1%%25%s]", "h://[::1]%s", "h://h:%s", "h://h:1%s/p", "h://h/p%sq", "h://h/?q%sr", "h://h?%s", "h://h/#f%sg", "h://h/?%s#f",
          "/%s", "/a?b#%s", "*%s"]


def enc(s):
    return [ord(c) for c in s]


def good(rng):
    """A URL of the supported form, as varied as it gets."""
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    dg = "0123456789"
    uc = "".join(chr(c) for c in [9, 12] + list(range(33, 127)) if chr(c) not in "#?")
    user = al + dg + "-_.!~*'()%;:&=+$,"

    def some(chars, lo, hi):
        return "".join(rng.choice(chars) for _ in range(rng.choice([lo, lo, lo + 1, rng.randint(lo, hi)])))
    tail = ""
    if rng.random() < .7:
        tail += "/" + some(uc, 0, 12)
    q = ("?" + some(uc + "?", 0, 8)) if rng.random() < .5 else ""
    f = ("#" + some(uc + "?#", 0, 8)) if rng.random() < .4 and (tail or q) else ""
    if rng.random() < .1:
        return "/" + some(uc, 0, 9) + q + f
    sch = rng.choice(["http", "https", "ftp", "ws", "file", "HTTP", rng.choice(al) + some(al + dg + "+-.", 0, 6)])
    if rng.random() < .15:
        return sch + ":" + some(uc.replace("/", ""), 1, 6) + q + f
    host = rng.choice(["h", "example.com", some(al + dg + ".-_", 1, 14), "[" + some(dg + "abcdefABCDEF:.", 1, 12) + "]",
                       "[" + some("abcdef:0", 1, 8) + "%25" + some(al + dg + "%.-_~", 1, 5) + "]"])
    return sch + "://" + ((some(user, 0, 8) + "@") if rng.random() < .3 else "") + host + ((":" + str(rng.choice([0, 1, 80, 443, 8080, 65535, rng.randrange(65536)]))) if rng.random() < .4 else "") + tail + q + f


def mutate(rng, u):
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(u) + 1)
        c = rng.choice([chr(rng.randrange(256)), rng.choice("/:?#@[]%. 09"), ""])
        u = u[:i] + c + u[i + rng.randrange(2):]
    return u


def U01(ctx):
    rng = ctx.rng
    for c in ("chars", "pieces"):
        ctx.model("MCUrl", "MCUrl_%s%s.cfg" % (c, ctx.scale("", "_deep")))
    h = vlib.build("url.cpp", config=ctx.scale("standalone", "standalone-header-only"), flags=ASAN)
    urls = []
    for n in range(ctx.scale(4, 5) + 1):
        urls += ["".join(t) for t in itertools.product(CHARS, repeat=n)]
    for n in range(ctx.scale(3, 4) + 1):
        urls += ["".join(t) for t in itertools.product(PIECES, repeat=n)]
    # the same behind a beginning that gets further
    for pre in ("http://", "http://a", "a://[", "x:/", "f:///", "/?"):
        for n in range(ctx.scale(3, 4) + 1):
            urls += [pre + "".join(t) for t in itertools.product(CHARS, repeat=n)]
    for a in AROUND:
        urls += [a % chr(c) for c in range(256)]
    for p in itertools.chain(range(0, 300), range(65400, 65700), range(99000, 99999, 77), (655350, 655360, 165535, 4294967296, 4295032832, 4294967376, 18446744073709551617), range(0, 65536, ctx.scale(97, 1))):
        urls += ["h://a:%d" % p, "http://[::1]:%d/x" % p]
    for z in ("00", "000", "0000", "00000", "000000", "0000080", "00080", "080", "+80", "-1", "8 0", "0x50"):
        urls += ["h://a:%s" % z, "http://a:%s/" % z]
    for _ in range(ctx.scale(6000, 100000)):
        u = good(rng)
        urls.append(u)
        urls.append(mutate(rng, u))
        urls.append(u[:rng.randrange(len(u) + 1)])
    urls = list(dict.fromkeys(urls))
    ctx.notes["urls"] = len(urls)
    step = 50
    scripts = [("u%d" % i, [["u", enc(u), k % 2] for k, u in enumerate(urls[i:i + step])]) for i in range(0, len(urls), step)]
    # components far longer than 16 bits count: every z stands for that many
    long = []
    for _ in range(ctx.scale(400, 4000)):
        u = good(rng) if rng.random() < .7 else rng.choice(urls)
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.randrange(len(u) + 1)
            u = u[:i] + "z" + u[i + rng.randrange(2):]
        long.append(["u", enc(u), rng.randrange(2), rng.choice([40, 255, 256, 65536, 65537, 70001])])
    scripts += [("long%d" % i, long[i:i + 10]) for i in range(0, len(long), 10)]
    ctx.conform("url", h, "TraceUrl", scripts)


def N01(ctx):
    rng = ctx.rng
    h = vlib.build("connect.cpp", config=ctx.scale("standalone-header-only", "asio"), flags=ASAN)
    kinds = ["ok", "refuse", "net_down", "host_down", "no_family", "slow"]
    init, g = ctx.graph("MCConnect", "MCConnect.cfg")
    w, done, total = vlib.cover_walks(init, g, rng, maxlen=40)
    ctx.notes["transition_cover"] = [done, total]

    def conc(o):
        return ["start", o[1], [kinds.index(x) for x in o[2]]] + o[3:] if o[0] == "start" else o
    scripts = [("cov%d" % i, [conc(o) for o in x]) for i, x in enumerate(w)]
    for i in range(ctx.scale(150, 2000)):
        s = []
        for _ in range(6):
            f = rng.choice(["sync", "throw", "async", "async"])
            n = rng.choice([0, 1, 2, 3, 5, 9])
            p = [rng.choice([0, 1, 1, 2, 3, 4] + ([5] if f == "async" and rng.random() < .3 else [])) for _ in range(n)]
            r = "ok" if rng.random() < .85 else rng.choice(["host_not_found", "host_not_found_try_again", "service_not_found", "no_recovery"])
            s.append(["start", f, p if r == "ok" else [], r, rng.randrange(2)])
            if f == "async":
                s.append(["rcancel"] if rng.random() < .1 else ["resolve"])
                s += [[rng.choice(["cancel", "cancel", "close"])] for _ in range(p.count(5)) if rng.random() < .8]
        scripts.append(("wide%d" % i, s))
    ctx.conform("connect", h, "TraceConnect", scripts, timeout=60)


# --- T01 ---------------------------------------------------------------------
# as in harness/chrono.cpp
from fractions import Fraction as Fr
TRIPLES = [(Fr(1, 10), 1, Fr(1, 10)), (Fr(1, 10**9), 1, Fr(1, 10**9)), (Fr(1, 1000), 1, Fr(1, 1000)), (1, 60, 1), (Fr(1, 10**9), 1, Fr(1, 10**6)),
           (Fr(1, 10**6), 1, Fr(1, 10**9)), (Fr(1, 10**6), 1, Fr(1, 10**6)), (Fr(1, 1000), 3600, 1), (Fr(1, 10**7), 1, Fr(1, 10**7)), (1, 1, 1),
           (Fr(1, 2), Fr(3, 2), Fr(1, 2)), (60, 1, Fr(1, 1000))]
SOME = [(3, 3, 3), (3, 2, 3), (2, 2, 2), (3, 3, 2), (1, 1, 1), (2, 3, 3)]
TYPES = [(t, (a, b, c)) for t in TRIPLES[:4] for a in range(4) for b in range(4) for c in range(4)] + [(t, r) for t in TRIPLES[4:] for r in SOME]
CASTS = [(1, 1), (1, Fr(1, 1000)), (Fr(1, 1000), 1), (60, Fr(1, 10**9)), (Fr(1, 10**9), 3600), (Fr(1, 24), Fr(1, 30)), (Fr(1, 30), Fr(1, 24)),
         (Fr(1, 1000), Fr(1, 1024)), (Fr(3, 2), 1), (1, Fr(3, 2)), (Fr(1001, 30000), Fr(1, 90000)), (10**9 + 7, 10**9 + 9)]
BITS = [8, 16, 32, 64]


def lim(r):
    return 1 << (BITS[r] - 1)


def near(rng, pts, r, n):
    """n values of representation r, most of them close to one of the points."""
    l = lim(r)
    out = [v for v in (-l, -l + 1, -1, 0, 1, l - 2, l - 1)]
    while len(out) < n:
        x = rng.random()
        p = rng.choice(pts) if x < .6 else rng.choice((-1, 1)) * int(2 ** rng.uniform(0, BITS[r] - 1)) if x < .9 else rng.randrange(-l, l)
        v = int(p) + rng.choice((-2, -1, 0, 0, 1, 2))
        if -l <= v < l:
            out.append(v)
    return list(dict.fromkeys(out))


def T01(ctx):
    rng = ctx.rng
    ctx.model("MCChrono", "MCChrono%s.cfg" % ctx.scale("", "_deep"))
    h = vlib.build("chrono.cpp", config=ctx.scale("standalone-header-only", "asio"), internal=True)
    ops = []
    for i, ((d, f, s), (a, b, c)) in enumerate(TYPES):
        d, f, s = Fr(d), Fr(f), Fr(s)
        per = f / d
        # in units of d: the limits of each part, whole units around them
        pts = [0, per, -per, lim(b) * f / d, -lim(b) * f / d, lim(c) * s / d, -lim(c) * s / d, -lim(b) * f / d + lim(c) * s / d, (lim(a) // per) * per, -(lim(a) // per) * per,
               -(lim(a) // per) * per + lim(c) * s / d, 5 * per + lim(c) * s / d, -per * rng.randrange(2, 9)]
        if a == 0:
            vs = range(-128, 128) if i < 16 or ctx.thorough else near(rng, pts, a, 40)
        else:
            vs = near(rng, pts, a, ctx.scale(24, 200))
        ops += [["dec", i, v] for v in vs]
        ones = int(f / s)
        for _ in range(ctx.scale(24, 200)):
            # a whole near a limit of one of the representations, a remainder near that of the time or its own
            fv = rng.choice(near(rng, [lim(a) * d / f, -lim(a) * d / f, -lim(a) * d / f - 1], b, 20))
            rest = [(lim(a) * d - fv * f) / s, (-lim(a) * d - fv * f) / s]
            sv = rng.choice(near(rng, [0, ones - 1] + [x for x in rest if 0 <= x < ones] * 5, c, 20))
            if 0 <= sv and sv * s < f:
                ops.append(["cmp", i, fv, sv])
    for i in range(16 * len(CASTS)):
        (p, q), a, b = CASTS[i // 16], i // 4 % 4, i % 4
        p, q = Fr(p), Fr(q)
        x = p / q
        vs = near(rng, [lim(b) / x, -lim(b) / x, 1 / x, -1 / x, lim(3) / x.numerator, -lim(3) / x.numerator], a, ctx.scale(20, 150))
        ops += [["cast", i, v] for v in (range(-128, 128) if a == 0 and ctx.thorough else vs)]
    top = (lim(3) - 1) // 10**9
    for t in [-top, 1 - top, -1, 0, 1, top - 1, top] + [rng.randrange(-top, top) for _ in range(100)]:
        ops.append(["tt", t])
        ops += [["to", t * 10**9 + k] for k in (0, 1, 999999999) if t < top]
    ops += [["now"]] * 20
    rng.shuffle(ops)
    ctx.notes["calls"] = len(ops)
    scripts = [("t%d" % i, ops[i:i + 60]) for i in range(0, len(ops), 60)]
    ctx.conform("chrono", h, "TraceChrono", scripts)
