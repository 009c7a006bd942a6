"""F01-F06: synchronous files."""
import errno

import vlib

ASAN = ["-fsanitize=address"]


# ---------------------------------------------------------------- F01
def v(rng):
    return rng.choice("cst")


def kind(rng):
    return rng.choice("uhb")


def eintr(rng, fn, p=.1):
    return [["fault", fn, 0, "EINTR", rng.choice([1, 1, 2, 3])]] if rng.random() < p else []


def split(rng, n):
    r = []
    while n > 0:
        k = rng.randrange(0, n + 1)
        r.append(k); n -= k
    return r


def f01_concrete(walk, rng):
    out, byte = [["mode", 1]], 0
    for o in walk:
        k = o[0]
        if k == "open":
            out.append(o + [kind(rng)])
        elif k == "drop":
            out.append(o)
        elif k == "dup":
            out.append(o + [v(rng)])
        elif k in ("read", "readat", "write", "writeat"):
            fn = k[:-2] if k.endswith("at") else k
            out += eintr(rng, fn)
            if o[-1]:
                out.append(["fault", fn, 0, "cap", o[-1]])
            if fn == "read":
                out.append(o[:-1] + [v(rng)])
            else:
                q = o[-2]
                byte += 1
                out.append(o[:-2] + [[byte % 250 + 1] * len(q), split(rng, len(q)), v(rng)])
        elif k in ("seek", "trunc"):
            out += eintr(rng, "ftruncate") if k == "trunc" else []
            out.append(o + [v(rng)])
        elif k in ("pos", "size"):
            out.append(o + [v(rng)])
        else:
            raise vlib.CheckError("label %r" % (o,))
    return out


def f01_wide(rng, length):
    """Several files and handles, buffers of many pieces, positions beyond 32 bits."""
    out, openslots, byte = [["mode", 1]], set(), 0
    far = rng.random() < .5
    many = rng.random() < .25

    def off(neg=True):
        if neg and rng.random() < .04:
            return [-1, rng.choice([0, 5, -1])]
        g = rng.choice([0, 0, 1, 2, 3]) if far else 0
        if rng.random() < .3 and g:
            return [g, rng.choice([-1, 0, 1, -3])]
        return [g, rng.choice([0, 0, 1, 2, 3, 5, 8, 20, rng.randrange(60)])]

    def sizes():
        if many and rng.random() < .4:
            return [rng.choice([0, 1, 1, 2]) for _ in range(rng.choice([16, 63, 64, 65, 70, 130]))]
        return rng.choice([[1], [2], [3], [7], [20], [1, 2], [0, 3], [2, 0, 1], [], [0], [5, 5, 5], [0, 0], [1] * 6, [40]])
    for _ in range(length):
        c = rng.choices(["open", "drop", "dup", "read", "readat", "write", "writeat", "seek", "pos", "size", "trunc"],
                        [2, .8, 1.2, 5, 4, 5, 4, 4, 1, 1, 1.5])[0]
        s = rng.randrange(1, 5)
        if c == "open":
            free = [i for i in range(1, 5) if i not in openslots]
            if free:
                s = rng.choice(free); openslots.add(s)
                out.append([c, s, rng.choice([1, 2]), rng.choice(["rw", "rw", "rw", "rw", "r", "w"]), kind(rng)])
            continue
        if c == "dup":
            free = [i for i in range(1, 5) if i not in openslots]
            if free and openslots:
                s = rng.choice(free)
                out.append([c, s, rng.choice(sorted(openslots)), v(rng)]); openslots.add(s)
            continue
        if openslots and rng.random() < .97:
            s = rng.choice(sorted(openslots))
        if c == "drop":
            if s in openslots:
                out.append([c, s]); openslots.discard(s)
            continue
        if c in ("read", "write", "readat", "writeat"):
            fn = c[:-2] if c.endswith("at") else c
            out += eintr(rng, fn)
            if rng.random() < .2:
                out.append(["fault", fn, 0, "cap", rng.choice([1, 1, 2, 3, 5, 10])])
            pos = off() if c.endswith("at") else []
            if rng.random() < .05:
                d = [(byte + i) % 251 for i in range(rng.randrange(1, 30))]
                byte += len(d) * 7 + 1
                if out[-1][0] == "fault" and out[-1][3] == "cap":
                    out.pop()
                out.append(["big" + c, s] + pos + [d, v(rng)])
                continue
            if fn == "read":
                out.append([c, s] + pos + [sizes(), v(rng)])
            else:
                z = sizes()
                d = [(byte + i) % 251 for i in range(sum(z))]
                byte += len(d) * 7 + 1
                out.append([c, s] + pos + [d, z, v(rng)])
        elif c == "seek":
            org = rng.choice(["begin", "current", "end"])
            o = off(False)
            if org != "begin" and rng.random() < .5 or rng.random() < .05:
                o = [-o[0], -o[1]]
            out.append([c, s, org] + o + [v(rng)])
        elif c == "trunc":
            out += eintr(rng, "ftruncate")
            out.append([c, s] + off() + [v(rng)])
        else:
            out.append([c, s, v(rng)])
    return out


def f01_long(rng, length):
    """Transfers of up to a few hundred thousand bytes."""
    out = [["mode", 1], ["window"], ["open", 1, 1, "rw", kind(rng)], ["open", 2, 2, "rw", kind(rng)]]
    for _ in range(length):
        s = rng.choice([1, 2])
        c = rng.choice(["lwrite", "lwrite", "lwriteat", "lread", "lreadat", "seek", "seek", "trunc", "read", "write"])
        pos = rng.choice([0, 0, 1, 65535, 65536, 65537, 131072, rng.randrange(300000)])
        n = rng.choice([1, 255, 256, 257, 65535, 65536, 65537, 131072, 200000, rng.randrange(1, 250000)])
        if c[0] == "l":
            k = rng.choice([1, 1, 2, 3, 70])
            cut = sorted(rng.randrange(n + 1) for _ in range(k - 1))
            sizes = [b - a for a, b in zip([0] + cut, cut + [n])]
            places = sorted({0, n - 1} | {min(n - 1, max(0, x)) for x in cut} | {rng.randrange(n) for _ in range(5)}) if "write" in c else []
            if rng.random() < .2:
                out.append(["fault", "write" if "write" in c else "read", 0, "cap", rng.randrange(1, n + 1)])
            out += eintr(rng, "write" if "write" in c else "read")
            out.append([c, s] + ([0, pos] if c.endswith("at") else []) + [sizes, places, [rng.randrange(1, 256) for _ in places], v(rng)])
        elif c == "seek":
            out.append([c, s, "begin", 0, pos, v(rng)])
        elif c == "trunc":
            out.append([c, s, 0, rng.choice([pos, 0, n]), v(rng)])
        elif c == "read":
            out.append([c, s, [rng.choice([1, 3])], v(rng)])
        else:
            out.append([c, s, [rng.randrange(1, 256)] * 3, [1, 2], v(rng)])
    return out


def F01(ctx):
    h = vlib.build("files.cpp", config=ctx.scale("standalone-header-only", "boost-asio"), flags=ASAN)
    init, g = ctx.graph("MCFileIO", "MCFileIO.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("c%d" % i, f01_concrete(x, ctx.rng)) for i, x in enumerate(w)]
    if not ctx.thorough and len(scripts) > 400:
        scripts = ctx.rng.sample(scripts, 400)
        ctx.notes["cover_sampled"] = 400
    scripts += [("w%d" % i, f01_wide(ctx.rng, 60)) for i in range(ctx.scale(300, 3000))]
    scripts += [("long%d" % i, f01_long(ctx.rng, 25)) for i in range(ctx.scale(40, 400))]
    ctx.conform("files", h, "TraceFileIO", scripts)
    if ctx.thorough:
        h = vlib.build("files.cpp", config="asio", flags=ASAN)
        ctx.conform("files_asio", h, "TraceFileIO", scripts)


# ---------------------------------------------------------------- F02
NAMES = ["a", "b", "l", "m"]


def via(rng, boost):
    return rng.choice(["open", "ctor", "member"] + (["popen", "pctor", "pmember"] if boost else []))


def f02_concrete(walk, rng, boost):
    out = [["mode", 2], ["names"] + NAMES, ["plain"]]
    for o in walk:
        out += eintr(rng, "open") if o[0] == "lopen" else []
        out.append(o[:5] + [via(rng, boost), v(rng)] if o[0] == "lopen" else list(o))
    return out


def f02_flags(rng, boost, combos):
    """Every combination of flag bits, against every kind of name."""
    out = [["mode", 2], ["names"] + NAMES, ["plain"]]
    for fl in combos:
        for k in ("absent", "file", "dir", "link", "dangling"):
            if k == "file":
                out.append(["mk", "a", "file", rng.choice(["old", "data", "none"]), rng.choice([0o644, 0o600, 0o400, 0o755])])
            elif k == "dir":
                out.append(["mk", "a", "dir"])
            elif k == "link":
                out += [["mk", "b", "file", "old", 0o640], ["mk", "a", "link", "b"]]
            elif k == "dangling":
                out += [["mk", "a", "link", "b"]]
            out.append(["lopen", "a", fl, rng.choice([0o666, 0o666, 0o600, 0o777, 0o4711, 0o2755, 0o1644, 0, 0o7777, rng.randrange(0o1000)]),
                        rng.choice([0o22, 0, 0o77, 0o27, 0o777]), via(rng, boost), v(rng)])
            out += [["rm", "a"], ["rm", "b"]]
    return out


def f02_wide(rng, boost, length):
    out = [["mode", 2], ["names"] + NAMES, ["plain"]]
    for _ in range(length):
        c = rng.random()
        n = rng.choice(NAMES)
        if c < .12:
            out += [["rm", n], ["mk", n, "file", rng.choice(["old", "data"]), rng.choice([0o644, 0o444, 0, 0o7755])]]
        elif c < .18:
            out += [["rm", n], ["mk", n, "dir"]]
        elif c < .28:
            out += [["rm", n], ["mk", n, "link", rng.choice(NAMES)]]
        elif c < .36:
            out.append(["rm", n])
        else:
            if rng.random() < .1:
                n = rng.choice(["nodir", "notdir", "empty", "long"])
            fl = rng.choice([1, 2, 3, 3]) + rng.choice([4, 8, 16, 32, 64])
            if rng.random() < .12:
                fl = rng.randrange(-1, 1024)
            elif rng.random() < .2:
                fl += rng.choice([128, 256, 384])
            f = rng.random()
            if f < .1:
                out.append(["fault", "open", 0, "EINTR", rng.choice([1, 2, 3])])
            elif f < .2:
                out.append(["fault", "open", 0, some_err(rng, ["EIO", "EMFILE", "ENFILE", "EACCES", "EPERM", "EROFS", "ENOSPC", "ENOMEM", "ETXTBSY"])])
            out.append(["lopen", n, fl, rng.choice([0o666, 0o644, 0o777, 0, 0o4755, 0o1777]), rng.choice([0, 0o22, 0o77]), via(rng, boost), v(rng)])
    return out


def F02(ctx):
    cfg = ctx.scale("asio", "boost-asio")
    h = vlib.build("files.cpp", config=cfg, flags=ASAN)
    boost = True
    init, g = ctx.graph("MCFileOpen", "MCFileOpen.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("c%d" % i, f02_concrete(x, ctx.rng, boost)) for i, x in enumerate(w)]
    combos = list(range(-1, 128)) + ([] if not ctx.thorough else list(range(128, 1024)))
    ctx.rng.shuffle(combos)
    scripts += [("f%d" % i, f02_flags(ctx.rng, boost, combos[i:i + 8])) for i in range(0, len(combos), 8)]
    scripts += [("w%d" % i, f02_wide(ctx.rng, boost, 60)) for i in range(ctx.scale(150, 2500))]
    ctx.conform("open", h, "TraceFileOpen", scripts)
    if ctx.thorough:
        h = vlib.build("files.cpp", config="standalone-header-only", flags=ASAN)
        nob = [(k, [o[:5] + [o[5].lstrip("p") if o[5][1:] in ("open", "ctor", "member") else o[5]] + o[6:] if o[0] == "lopen" else o
                    for o in ops]) for k, ops in scripts]
        ctx.conform("open_standalone", h, "TraceFileOpen", nob)


# ---------------------------------------------------------------- F03
CLOSE_ERR = ["EIO", "EINTR", "ENOSPC", "EDQUOT"]
# any error at all the system has a name for, by its number; but an interrupted call may be
# made again, and a call the system doesn't support may be replaced by another
ANY_ERR = ["#%d" % e for e in sorted(errno.errorcode) if e not in (errno.EINTR, errno.EINPROGRESS, errno.ENOSYS, errno.EOPNOTSUPP, errno.EMSGSIZE)]


def some_err(rng, usual):
    return rng.choice(ANY_ERR) if rng.random() < 0.5 else rng.choice(usual)




def f03_concrete(walk, rng):
    out, objs = [["mode", 3]], set()
    for o in walk:
        k = o[0]
        if k in ("uopen", "udup", "del", "close", "massign", "oassign", "reset") and not o[-1]:
            if k == "uopen":
                out.append(["fault", "open", 0, some_err(rng, ["EMFILE", "ENOSPC", "EACCES"])])
            elif k == "udup":
                out.append(["fault", "dup", 0, some_err(rng, ["EMFILE"])])
            else:
                out.append(["fault", "close", 0, some_err(rng, CLOSE_ERR)])
        if k in ("uopen", "udup"):
            out.append(list(o[:-1]) + [rng.choice("cst") if o[-1] else rng.choice("cs")])
        elif k in ("close", "reset"):
            out.append(list(o[:-1]) + [v(rng)])
        elif k in ("del", "massign", "oassign"):
            out.append(list(o[:-1]))
        elif k == "own":
            out.append(list(o) + [rng.choice("nh")])
        else:
            out.append(list(o))
        if k in ("massign", "oassign") and not o[-1] or k == "massign" and o[1] == o[2]:
            break          # who holds what is open from here on
    return out + [["del", s] for s in (1, 2, 3)]


def f03_wide(rng, length, nslots=6):
    """A program that keeps the rules, with more objects than the bounded model has."""
    out = [["mode", 3]]
    ob = {s: None for s in range(1, nslots + 1)}       # None, ["u", id|None], ["h", id|None|"stale"]
    nxt = [0]
    live = set()

    def fresh():
        nxt[0] += 1; live.add(nxt[0])
        return nxt[0]

    def owned():
        return {o[1] for o in ob.values() if o and o[0] == "u" and o[1]}

    def gone(i):
        if i:
            live.discard(i)
            for o in ob.values():
                if o and o[0] == "h" and o[1] == i:
                    o[1] = "stale"

    def free(h):
        return h[1] is None or (h[1] in live and h[1] not in owned())

    def failing(i, fn="close", p=.15):
        if i and rng.random() < p:
            out.append(["fault", fn, 0, some_err(rng, CLOSE_ERR)])
            return True
        return False

    def delete(s):
        o = ob[s]
        out.append(["del", s])
        ob[s] = None
        if o and o[0] == "u":
            gone(o[1])
    for _ in range(length):
        c = rng.choice(["rawfd", "new", "own", "own", "uopen", "uopen", "udup", "udup", "del", "mctor", "mctor", "massign", "massign",
                        "massign", "oassign", "oassign", "close", "close", "clear", "get", "hcopy", "release", "release", "reset", "reset"])
        none = [s for s in ob if ob[s] is None]
        us = [s for s in ob if ob[s] and ob[s][0] == "u"]
        hs = [s for s in ob if ob[s] and ob[s][0] == "h"]
        if c == "rawfd" and none + hs:
            s = rng.choice(none + hs); out.append([c, s]); ob[s] = ["h", fresh()]
        elif c == "new" and none:
            s = rng.choice(none); k = rng.choice("uh"); out.append([c, s, k]); ob[s] = [k, None]
        elif c == "own" and none and hs:
            s, f = rng.choice(none), rng.choice(hs)
            if free(ob[f]):
                out.append([c, s, f, rng.choice("nh")]); ob[s] = ["u", ob[f][1]]
        elif c in ("uopen", "udup") and none:
            s = rng.choice(none)
            vv = v(rng)
            f = rng.choice(us) if us else None
            if c == "udup" and not f:
                continue
            bad = c == "udup" and ob[f][1] is None
            if not bad and rng.random() < .12:
                bad = True
                out.append(["fault", "open" if c == "uopen" else "dup", 0, some_err(rng, ["EMFILE", "ENFILE"])])
            out.append([c, s, vv] if c == "uopen" else [c, s, f, vv])
            if not bad:
                ob[s] = ["u", fresh()]
            elif vv != "t":
                ob[s] = ["u", None]
        elif c == "del" and us + hs:
            s = rng.choice(us + hs)
            failing(ob[s][0] == "u" and ob[s][1])
            delete(s)
        elif c == "mctor" and none and us:
            s, f = rng.choice(none), rng.choice(us)
            out.append([c, s, f]); ob[s] = ob[f]; ob[f] = ["u", None]
        elif c == "massign" and us:
            s, f = rng.choice(us), rng.choice(us)
            if s == f:
                continue
            bad = failing(ob[s][1])
            out.append([c, s, f])
            gone(ob[s][1])
            if bad:
                i = ob[f][1]
                ob[s] = ob[f] = ["u", None]
                delete(s); delete(f); gone(i)
            else:
                ob[s] = ob[f]; ob[f] = ["u", None]
        elif c == "oassign" and us:
            s = rng.choice(us)
            obad = rng.random() < .1
            if obad:
                out.append(["fault", "open", 0, some_err(rng, ["ENOSPC"])])
            bad = failing(ob[s][1])
            out.append([c, s]); gone(ob[s][1])
            ob[s] = ["u", None]
            if bad:
                delete(s)
            elif not obad:
                ob[s] = ["u", fresh()]
        elif c == "close" and us + hs:
            s = rng.choice(us + hs)
            if ob[s][0] == "h" and not free(ob[s]):
                continue
            failing(ob[s][1])
            out.append([c, s, v(rng)])
            i = ob[s][1]
            ob[s][1] = None
            gone(i)
        elif c == "clear" and hs:
            s = rng.choice(hs); out.append([c, s]); ob[s] = ["h", None]
        elif c in ("get", "release") and us and none + hs:
            s, f = rng.choice(none + hs), rng.choice(us)
            out.append([c, s, f]); ob[s] = ["h", ob[f][1]]
            if c == "release":
                ob[f] = ["u", None]
        elif c == "hcopy" and hs and none + hs:
            s, f = rng.choice(none + hs), rng.choice(hs)
            out.append([c, s, f]); ob[s] = ["h", ob[f][1]]
        elif c == "reset" and us and hs:
            s, f = rng.choice(us), rng.choice(hs)
            if not free(ob[f]):
                continue
            bad = failing(ob[s][1])
            out.append([c, s, f, v(rng)])
            gone(ob[s][1])
            if bad:
                ob[s] = ["u", None]
                delete(s)
                i = ob[f][1]
                out.append(["clear", f]); ob[f] = ["h", None]
                gone(i)
            else:
                ob[s] = ["u", ob[f][1]]
    return out + [["del", s] for s in ob]


def F03(ctx):
    h = vlib.build("files.cpp", config=ctx.scale("standalone-header-only", "boost-asio"), flags=ASAN)
    init, g = ctx.graph("MCHandles", "MCHandles.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("c%d" % i, f03_concrete(x, ctx.rng)) for i, x in enumerate(w)]
    if not ctx.thorough and len(scripts) > 600:
        scripts = ctx.rng.sample(scripts, 600)
        ctx.notes["cover_sampled"] = 600
    scripts += [("w%d" % i, f03_wide(ctx.rng, 60)) for i in range(ctx.scale(300, 3000))]
    ctx.conform("handles", h, "TraceHandles", scripts)


# ---------------------------------------------------------------- F04
HARD = ["EIO", "EPERM", "EACCES", "ENOSPC", "EDQUOT", "EROFS", "EFBIG", "ENOMEM", "EBADF", "EINVAL", "EOVERFLOW", "ESTALE"]
SYSFN = {"size": "fstat", "getperm": "fstat", "gettimes": "fstat", "pos": "lseek", "seek": "lseek", "trunc": "ftruncate", "read": "read",
         "readat": "read", "write": "write", "writeat": "write", "settimes": "futimens", "setperm": "fchmod", "close": "close", "dup": "dup", "fopen": "open"}


def f04_op(o, rng, byte=[0]):
    """A label of the bounded model as harness operations."""
    k, out = o[0], []
    if k in ("obj", "drop"):
        return [list(o)]
    if k == "std":
        return [["std", o[1], v(rng)]]
    if k == "cancel":
        return [list(o) + [v(rng)]]
    inj = o[-1]
    s = o[1]
    opt = rng.choice(["default", "replace", "add", "remove"])
    if inj != "none":
        fn = SYSFN[k]
        if k == "setperm" and opt in ("add", "remove") and inj == "err" and rng.random() < .4:
            fn = "fstat"
        if inj in ("intr", "intrerr"):
            out.append(["fault", fn, 0, "EINTR", rng.choice([1, 1, 2, 5])])
        if inj in ("err", "intrerr"):
            out.append(["fault", fn, 0, some_err(rng, HARD)])
    vv = v(rng)
    neg = k in ("seek", "trunc", "readat", "writeat") and o[2] == "neg"
    off = rng.choice([[-1, 0], [-1, 5], [-1, -7]]) if neg else [0, rng.choice([0, 0, 1, 2, 5])]
    sizes = rng.choice([[1], [3], [1, 2], [0, 4], [2, 0, 1], [0], [0, 0], []])
    tot = sum(sizes)
    byte[0] += 1
    data = [(byte[0] * 3 + i) % 255 + 1 for i in range(tot)]
    if k in ("size", "getperm", "gettimes", "pos"):
        out.append([k, s, vv])
    elif k == "close":
        out.append([k, s, vv])
    elif k == "seek":
        if neg:
            out.append([k, s, "begin"] + rng.choice([[-1, 0], [0, -1], [0, -9]]) + [vv])
        else:
            out.append([k, s, rng.choice(["begin", "begin", "begin"])] + off + [vv])
    elif k == "trunc":
        out.append([k, s] + off + [vv])
    elif k == "read":
        out.append([k, s, sizes, vv])
    elif k == "readat":
        out.append([k, s] + off + [sizes, vv])
    elif k == "write":
        out.append([k, s, data, sizes, vv])
    elif k == "writeat":
        out.append([k, s] + off + [data, sizes, vv])
    elif k == "setperm":
        out.append([k, s, rng.choice([0o644, 0o600, 0o777, 0o400, 0o20, 0]), opt, vv])
    elif k == "settimes":
        # with nothing to set the system does not even look at the descriptor
        a, m = rng.choice([(0, 1234), (1000, 0), (77777, 1234), (5, 6)])
        out.append([k, s, 0, a, 0, 0, m, rng.choice([0, 5]) if m else 0, 0, vv])
    elif k == "getattr":
        out.append(["attrs", s, "get", 0, vv])
    elif k == "setattr":
        out.append(["attrs", s, rng.choice(["default", "replace", "add", "remove"]), 0, vv])
    elif k == "dup":
        out.append([k, s, o[2], vv])
    elif k == "fopen":
        out.append([k, s, o[2], vv])
    else:
        raise vlib.CheckError("label %r" % (o,))
    return out


def f04_script(walk, rng):
    out = [["mode", 5], ["plain"]]
    for o in walk:
        out += f04_op(o, rng)
    return out


def f04_wide(rng, length):
    """Four handles of all kinds that share a file."""
    out = [["mode", 5], ["plain"]]
    kinds, cls = {}, {}
    for _ in range(length):
        s = rng.randrange(1, 5)
        if s not in kinds:
            if kinds and rng.random() < .25:
                t = rng.choice(sorted(kinds))
                inj = rng.choice(["none", "none", "err"])
                out += f04_op(["dup", s, t, inj], rng)
                kinds[s] = "closed" if inj == "err" else kinds[t]
                cls[s] = "u"
                continue
            kinds[s] = rng.choice(["closed", "rw", "rw", "ro", "wo", "dir", "rpipe", "wpipe", "bpipe", "full"])
            cls[s] = rng.choice("uhb")
            out.append(["obj", s, kinds[s], cls[s]])
            continue
        k = rng.choice(["size", "getperm", "setperm", "gettimes", "settimes", "pos", "seek", "seek", "trunc", "read", "read", "readat", "readat",
                        "write", "write", "writeat", "writeat", "getattr", "setattr", "close", "cancel", "fopen", "std", "drop"])
        inj = rng.choice(["none", "none", "none", "err", "intr", "intrerr"])
        if kinds[s] == "full" and k in ("setperm", "settimes"):
            continue
        if k == "drop":
            if rng.random() < .3:
                out.append([k, s]); del kinds[s]
        elif k == "std":
            out += f04_op([k, rng.choice(["in", "out", "err"])], rng)
        elif k == "cancel":
            if cls[s] == "b":
                out += f04_op([k, s], rng)
        elif k == "close":
            if kinds[s] == "closed" or inj == "intrerr":
                inj = "none"
            out += f04_op([k, s, inj], rng); kinds[s] = "closed"
        elif k == "fopen":
            if cls[s] == "b" or cls[s] == "u" and kinds[s] == "closed":
                p = rng.choice(["good", "good", "missing", "below", "empty", "dir", "exists", "contradictory", "long"])
                if p == "contradictory":
                    inj = "none"
                out += f04_op([k, s, p, inj], rng)
                if kinds[s] == "closed" and p == "good" and inj in ("none", "intr"):
                    kinds[s] = "rw"
        elif k in ("seek", "trunc", "readat", "writeat"):
            if k == "seek" and inj.startswith("intr"):
                inj = "none"
            out += f04_op([k, s, rng.choice(["ok", "ok", "neg"]), inj], rng)
        else:
            if inj.startswith("intr") and k not in ("read", "write", "setperm"):
                inj = "none"
            if k in ("getattr", "setattr"):
                inj = "none"
            out += f04_op([k, s, inj], rng)
    return out


def F04(ctx):
    h = vlib.build("files.cpp", config=ctx.scale("asio-header-only", "boost-asio"), flags=ASAN)
    init, g = ctx.graph("MCFileErrors", "MCFileErrors.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=100)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("c%d" % i, f04_script(x, ctx.rng)) for i, x in enumerate(w)]
    if not ctx.thorough and len(scripts) > 1500:
        scripts = ctx.rng.sample(scripts, 1500)
        ctx.notes["cover_sampled"] = 1500
    scripts += [("w%d" % i, f04_wide(ctx.rng, 80)) for i in range(ctx.scale(300, 3000))]
    ctx.conform("errors", h, "TraceFileErrors", scripts)
    if ctx.thorough:
        h = vlib.build("files.cpp", config="standalone-header-only", flags=ASAN)
        ctx.conform("errors_standalone", h, "TraceFileErrors", scripts)


# ---------------------------------------------------------------- F05
def f05_start(rng, mode=0o644):
    out = [["mode", 4], ["mkf1", mode]]
    acc = ["rw", "r", "w"]
    rng.shuffle(acc)
    for s in (1, 2, 3):
        out.append(["open", s, 1, acc[s - 1], kind(rng)])
    for s in (1, 2, 3):
        if rng.random() < .5:
            out.append(["seek", s, "begin", 0, rng.randrange(12), "c"])
    return out


def f05_concrete(walk, rng):
    out = f05_start(rng) + [["rawtimes", 1, 0, 0, 1, 0, 0]]
    for o in walk:
        k = o[0]
        if k == "attrs":
            out.append(list(o) + [rng.choice([0, 1, 2, 4, 8, 64, 255]), v(rng)])
        elif k == "settimes":
            out.append(list(o) + [rng.choice([0, 0, 5]), v(rng)])
        elif k == "rawtimes":
            out.append(list(o))
        else:
            out += eintr(rng, "fchmod") if k == "setperm" else []
            out.append(list(o) + [v(rng)])
    return out


def f05_time(rng):
    r = rng.random()
    ns = rng.choice([0, 0, 1, 999999999, 500000000, 1000, 1000000, rng.randrange(10 ** 9)])
    if r < .3:
        return [rng.choice([-1, 0, 0, 1]), rng.choice([0, 0, 1, 86398, 86399]), ns]
    if r < .4:
        return [rng.choice([-24855, 24855]), rng.randrange(86400), ns]
    # what every file system here keeps: 1902 to 2037
    return [rng.randrange(-24800, 24800), rng.randrange(86400), ns]


def f05_far(rng):
    if rng.random() < .3:
        return [rng.choice([106751, 106752, -106752, -106753, 200000, -719162, 99999, -99999, 2932896]), rng.randrange(86400), rng.randrange(10 ** 9)]
    if rng.random() < .5:
        return rng.choice([[106751, 85636, 854775807], [106751, 85636, 854775808], [-106752, 763, 145224192], [-106752, 763, 145224191],
                           [106751, 85636, 0], [106751, 85637, 0], [-106752, 763, 0], [-106752, 764, 0], [-106752, 763, 999999999]])
    return f05_time(rng)


def f05_wide(rng, length):
    out = f05_start(rng, rng.randrange(0o10000))
    for _ in range(length):
        s = rng.randrange(1, 4)
        c = rng.choices(["setperm", "getperm", "settimes", "gettimes", "attrs", "rawtimes", "seek"], [5, 3, 5, 4, 1, 2, 1])[0]
        if c == "setperm":
            out += eintr(rng, "fchmod")
            out.append([c, s, rng.choice([rng.randrange(0o10000), 1 << rng.randrange(12), 0o10000 - 1 - (1 << rng.randrange(12)), 0, 0o7777]),
                        rng.choice(["default", "replace", "add", "remove"]), v(rng)])
        elif c == "settimes":
            a, m = f05_time(rng), f05_time(rng)
            z = rng.random()
            if z < .25:
                a = [0, 0, 0]
            elif z < .5:
                m = [0, 0, 0]
            elif z < .55:
                a = m = [0, 0, 0]
            out.append([c, s] + a + m + [rng.choice([0, 0, 5, -3]), v(rng)])
        elif c == "attrs":
            out.append([c, s, rng.choice(["get", "default", "replace", "add", "remove"]), rng.choice([0, 1, 2, 4, 8, 64, 255]), v(rng)])
        elif c == "rawtimes":
            out.append([c] + f05_far(rng) + f05_far(rng))
        elif c == "seek":
            out.append([c, s, "begin", 0, rng.randrange(12), v(rng)])
        else:
            out.append([c, s, v(rng)])
    return out


def F05(ctx):
    h = vlib.build("files.cpp", config=ctx.scale("standalone", "boost-asio"), flags=ASAN)
    init, g = ctx.graph("MCFileMeta", "MCFileMeta.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=100)
    ctx.notes["transition_cover"] = [done, total]
    scripts = [("c%d" % i, f05_concrete(x, ctx.rng)) for i, x in enumerate(w)]
    if not ctx.thorough and len(scripts) > 500:
        scripts = ctx.rng.sample(scripts, 500)
        ctx.notes["cover_sampled"] = 500
    scripts += [("w%d" % i, f05_wide(ctx.rng, 100)) for i in range(ctx.scale(300, 3000))]
    # the times a file system keeps differ; a memory file system keeps all of them
    ctx.conform("meta", h, "TraceFileMeta", scripts, env={"HARNESS_SHM": "1"})
    if ctx.thorough:
        h = vlib.build("files.cpp", config="asio", flags=ASAN)
        ctx.conform("meta_disk", h, "TraceFileMeta", scripts)


# ---------------------------------------------------------------- F06
F06_ERR = ["EIO", "ENOSPC", "EDQUOT", "EACCES", "EPERM", "ESTALE"]


def pieces(rng, n, zero=True):
    """n as a sum of piece sizes"""
    c = rng.random()
    if n == 0:
        return rng.choice([[], [0], [0, 0]])
    if c < .3:
        return [n]
    if c < .6:
        k = rng.randrange(0, n + 1)
        return [k, n - k]
    if c < .8 and n <= 200:
        return [1] * n
    out, left = [], n
    while left:
        k = min(left, max(1, rng.choice([1, n // 3, n // 7, 65536, 65537, 512])))
        out.append(k); left -= k
        if len(out) > 50:
            out.append(left); break
    if zero and rng.random() < .3:
        out.insert(rng.randrange(len(out) + 1), 0)
    return out


def slow(rng, fn, n):
    """interruptions and short transfers"""
    out = []
    for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
        out.append(["fault", fn, rng.choice([0, 0, 0, 1, 2]), "cap", rng.choice([1, 1, 2, 7, max(1, n - 1), max(1, n // 2), 4096])])
    if rng.random() < .15:
        out.append(["fault", fn, rng.choice([0, 0, 1]), "EINTR", rng.choice([1, 2])])
    return out


def f06_raw(f, how, start, n, m, grows, i, rng, boost):
    """n: what is there (or a guess); m: what the container can hold"""
    out = []
    if i in ("open", "fstat", "read", "close"):
        if i == "read":
            out += [x for x in slow(rng, "read", n) if x[2] == 0] if rng.random() < .5 else []
        out.append(["fault", i, 0, some_err(rng, F06_ERR)])
    else:
        out += slow(rng, "read", n)
        out += eintr(rng, "open")
    cont = "p" if m < 2000000000 or not grows else rng.choice("vuslp")
    if cont == "p" and grows and m < 2000000000 and rng.random() < .4:
        cont = "m"
    h = "h" if how == "handle" else "b" if boost and rng.random() < .4 else "p"
    pre = rng.choice([0, 0, 1, 2, n, n + 3, n // 2])
    if cont in ("m", "p"):
        pre = min(pre, m)
    out.append(["rraw", f, h, start, cont, m, int(grows), pre, v(rng)])
    return out


def f06_buf(f, how, start, tot, i, rng, boost):
    out = []
    if i in ("open", "read", "close"):
        if i == "read":
            out += [x for x in slow(rng, "read", tot) if x[2] == 0 and x[3] == "cap" and x[4] < tot][:1] if rng.random() < .5 and tot > 1 else []
        out.append(["fault", i, 0, some_err(rng, F06_ERR)])
    else:
        out += slow(rng, "read", tot)
        out += eintr(rng, "open")
    h = "h" if how == "handle" else "b" if boost and rng.random() < .4 else "p"
    return out + [["rbuf", f, h, start, pieces(rng, tot), v(rng)]]


def f06_write(f, k, n, i, rng, boost):
    out = []
    if i in ("open", "write", "close"):
        if i == "write":
            out += slow(rng, "write", n) if rng.random() < .5 else []
        else:
            out += slow(rng, "write", n)
        out.append(["fault", i, rng.choice([0, 0, 1]) if i == "write" and n > 1 else 0, some_err(rng, F06_ERR)])
    else:
        out += slow(rng, "write", n)
        out += eintr(rng, "open")
    h = rng.choice("1pp") if not boost else rng.choice("1pb")
    return out + [["write", f, h, k, pieces(rng, n), v(rng)]]


def f06_concrete(walk, rng, boost):
    out, big = [], rng.random() < .3
    # the sizes of the bounded model stand for these
    sz = {0: 0, 1: rng.choice([1, 2, 511, 65536] if big else [1]), 2: 2, 3: rng.choice([3, 70000, 131072, 65537] if big else [3])}
    sz[2] = sz[3] - 1 if sz[3] - 1 >= sz[1] else 2
    n = 0
    for o in walk:
        k = o[0]
        if k == "file":
            n = sz[o[4]] if o[2] >= 0 else 0
            out.append(["file", o[1], o[2], o[3], n])
        elif k == "rraw":
            m = {0: 0, 2: sz[2], 100: 2000000000}[o[4]]
            out += f06_raw(o[1], o[2], o[3], n, m, o[5], o[6], rng, boost)
        elif k == "rbuf":
            out += f06_buf(o[1], o[2], o[3], sz[o[4]], o[5], rng, boost)
        elif k == "write":
            out += f06_write(o[1], 2, sz[o[2]], o[3], rng, boost)
            n = sz[o[2]] if o[3] in ("none", "close") else n
        else:
            raise vlib.CheckError("label %r" % (o,))
    return out


def f06_wide(rng, boost, length):
    out = []
    size = {1: None, 2: None}
    SIZES = [0, 1, 2, 3, 10, 100, 511, 512, 4095, 4096, 65535, 65536, 65537, 131072, 131073, 200000, 70001]
    for _ in range(length):
        f = rng.choice([1, 2])
        c = rng.choice(["file", "rraw", "rraw", "rraw", "rbuf", "rbuf", "write", "write", "write"])
        n = size[f] if isinstance(size[f], int) else 0
        i = rng.choice(["none", "none", "none", "open", "fstat", "read", "write", "close"])
        if c == "file":
            z = rng.random()
            if z < .1:
                out.append(["file", f, -1, 0, 0]); size[f] = None
            elif z < .15:
                out.append(["file", f, -2, 0, 0]); size[f] = "dir"
            else:
                size[f] = rng.choice(SIZES)
                out.append(["file", f, rng.choice([1, 2, 3, 4]), 0, size[f]])
        elif c in ("rraw", "rbuf"):
            how = rng.choice(["path", "handle"]) if isinstance(size[f], int) else "path"
            start = rng.choice([0, 0, 0, 1, n // 2, n]) if how == "handle" else 0
            start = min(start, n)
            if how == "handle" and i in ("open", "close"):
                i = "none"
            if c == "rraw":
                m = rng.choice([2000000000] * 4 + [n, max(0, n - 1), n + 1, 0, n // 2])
                out += f06_raw(f, how, start, n, m, rng.random() < .9, i, rng, boost)
                if rng.random() < .1:
                    out.append(["rraw", f, "p", 0, "h", 0, 1, rng.choice([0, 5]), v(rng)])
            else:
                tot = max(0, rng.choice([n - start, n - start, n - start - 1, n - start + 1, 0, 1, (n - start) // 2, 65536]))
                out += f06_buf(f, how, start, tot, i, rng, boost)
        else:
            n = rng.choice(SIZES)
            out += f06_write(f, rng.choice([1, 2, 3, 4]), n, i, rng, boost)
            if size[f] != "dir" and i != "open":
                size[f] = n
    return out


def F06(ctx):
    boost = True
    h = vlib.build("whole_file.cpp", config=ctx.scale("boost-asio", "boost-asio"), flags=ASAN)
    init, g = ctx.graph("MCWholeFile", "MCWholeFile.cfg")
    scripts, total = [], 0
    for rep in range(ctx.scale(6, 40)):
        w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
        scripts += [("c%d_%d" % (rep, i), f06_concrete(x, ctx.rng, boost)) for i, x in enumerate(w)]
    ctx.notes["transition_cover"] = [done, total]
    scripts += [("w%d" % i, f06_wide(ctx.rng, boost, 30)) for i in range(ctx.scale(150, 1500))]
    ctx.conform("whole", h, "TraceWholeFile", scripts)
    if ctx.thorough:
        h = vlib.build("whole_file.cpp", config="standalone", flags=ASAN)
        ctx.conform("whole_standalone", h, "TraceWholeFile", [("s" + k, [[x if x != "b" else "p" for x in o] for o in ops]) for k, ops in scripts])
