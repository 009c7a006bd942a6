"""A01-A05: asynchronous files on a thread pool service."""
import vlib

ASAN = ["-fsanitize=address"]
NSLOT, NCTX = 3, 2


TIMES = [2, 3, 128, 255, 256, 256, 257, 512, 65535, 65536, 65536]  # a cancel may come that often in a row


class Script:
    """A concrete script and what is known about the state it leads to."""
    def __init__(self, rng, simple=False):
        self.rng, self.simple = rng, simple
        self.ops, self.alive = [], set()
        self.slot = {}             # s -> [ctx, open?, identity]
        self.q = []                # waiting or undelivered operations: [svc, hc, identity, owned or None, done]
        self.byte = self.ntok = 0

    def tok(self):
        self.ntok += 1
        return self.ntok

    def first(self, c, st):
        for e in self.q:
            if e[0] == c and not e[4]:
                e[4] = st
                break

    def running(self, c):
        return any(e[0] == c and e[4] in ("run", "commit") for e in self.q)

    def committable(self, c):
        """The pool of c would take up an operation that makes a transfer."""
        w = [e for e in self.q if e[0] == c and not e[4]]
        return bool(w) and w[0][5] and not self.running(c)

    def shut(self, tok, closed=True):
        """A file is closed (or its operations cancelled): a transfer that was about to be made ends right away."""
        for e in self.q:
            if e[2] == tok and not e[4]:
                e[5] = False
        if closed:
            for c in sorted({e[0] for e in self.q if e[2] == tok and e[4] == "commit"}):
                self.do(["end", c])

    def tag(self):
        return self.rng.choice([1, 2])

    def thr(self):
        return self.rng.randrange(2)

    def path(self):
        return self.rng.choice([1, 1, 2, 2, 3])

    def sizes(self):
        r = self.rng
        if self.simple:
            return [r.choice([1, 1, 2])]
        return r.choice([[1], [2], [3], [5], [9], [1, 2], [2, 0, 1], [0, 3], [1, 1, 1, 1], [0], [], [4, 4],
                         [r.choice([0, 1, 1, 2]) for _ in range(r.choice([16, 17, 33, 60]))]])

    def steal(self):
        if not any(o[0] == "steal" for o in self.ops) and self.rng.random() < .7:
            self.ops.append(["steal"])

    def do(self, op):
        r, o = self.rng, op[0]
        if o == "ctx":
            self.alive = set(range(1, op[1] + 1))
            self.ops.append(op)
        elif o == "new":
            self.ops.append(["new", op[1], op[2], self.tag()])
            self.slot[op[1]] = [op[2], False, self.tok()]
        elif o == "nat":
            self.ops.append(["nat", op[1], op[2], self.tag(), self.path(), r.randrange(2)])
            self.slot[op[1]] = [op[2], True, self.tok()]
        elif o == "ctor":
            p = self.path() if op[3] else 0
            self.ops.append(["ctor", op[1], op[2], self.tag(), p, op[4]])
            if p or not op[4]:
                self.slot[op[1]] = [op[2], p != 0, self.tok()]
        elif o == "open":
            self.ops.append(["open", op[1], self.path() if op[2] else 0, self.thr()])
            self.slot[op[1]][1] = op[2] != 0
        elif o == "close":
            self.ops.append(["close", op[1], self.thr()])
            if self.slot[op[1]][1]:
                self.shut(self.slot[op[1]][2])
            self.slot[op[1]][1] = False
            self.steal()
        elif o == "cancel":
            n = self.rng.random()
            self.ops.append(["cancel", op[1], self.thr()] + ([self.rng.choice(TIMES)] if n < .1 else []))
            self.shut(self.slot[op[1]][2], False)
        elif o == "del":
            self.ops.append(op)
            f = self.slot.pop(op[1], None)
            if f:
                self.shut(f[2])
            self.steal()
        elif o == "mc":
            self.ops.append(op)
            self.slot[op[2]] = self.slot[op[1]]
            self.slot[op[1]] = [self.slot[op[2]][0], False, self.tok()]
        elif o == "ma":
            self.ops.append(op)
            if op[1] != op[2]:
                gone = self.slot[op[2]]
                self.slot[op[2]] = self.slot[op[1]]
                self.slot[op[1]] = [self.slot[op[2]][0], False, self.tok()]
                self.shut(gone[2])
                self.steal()
        elif o == "start":
            s, svc, hc, own = op[1:]
            sizes = self.sizes()
            off = r.choice([-1] * 9 + [0, 0, 1, 1, 2, 2, r.randrange(6), r.randrange(6)] + ([] if self.simple else [1000000 * r.randint(1, 5) + r.randrange(4)]))
            own = own or r.choice([0, 0, 1])
            ht = self.tag() if hc else 0
            if r.random() < .55:
                d = [(self.byte + i) % 200 + 1 for i in range(sum(sizes))]
                self.byte += len(d)
                self.ops.append(["wr", s, off, d, sizes, hc, ht, own, svc])
            else:
                self.ops.append(["rd", s, off, sizes, hc, ht, own, svc])
            f = self.slot[s]
            self.q.append([svc, hc or svc, f[2], f if own == 2 else None, False, f[1] and sum(sizes) > 0])
            if own == 2:
                del self.slot[s]
        elif o == "step":
            self.ops.append(op if len(op) < 3 else op + [r.choice([1, 1, 2, 3])])
            self.first(op[1], True)
        elif o in ("begin", "commit"):
            self.ops.append(op)
            self.first(op[1], "run" if o == "begin" else o)
        elif o == "end":
            if self.running(op[1]):
                self.ops.append(op)
            for e in self.q:
                if e[0] == op[1] and e[4] in ("run", "commit"):
                    e[4] = True
        elif o == "poll":
            self.ops.append(op)
            own = [e[3] for e in self.q if e[4] is True and e[1] == op[1] and e[3]]
            self.q = [e for e in self.q if not (e[4] is True and e[1] == op[1])]
            for f in own:
                self.shut(f[2])
        elif o == "drop":
            self.ops.append(op)
            self.alive.discard(op[1])
            self.q = [e for e in self.q if e[1] != op[1]]
            for e in self.q:            # destroyed, or let through
                if e[0] == op[1]:
                    e[4] = True
        else:
            raise vlib.CheckError("unknown label %r" % (op,))
        return self

    def can_drop(self, c):
        return c in self.alive and all(e[4] != "commit" for e in self.q) and all(f[0] != c for f in self.slot.values()) and all(
            (e[4] is True if e[0] != c and e[1] == c else True) and
            (e[3] is None if e[0] == c and e[1] != c else True) for e in self.q)

    def finish(self):
        for k in range(2):
            for c in sorted(self.alive):
                if self.running(c):
                    self.do(["end", c])
                for _ in range(sum(1 for e in self.q if e[0] == c and not e[4])):
                    self.do(["step", c])
            for c in sorted(self.alive):
                self.do(["poll", c])
        for s in sorted(self.slot):
            self.do(["del", s])
        for c in sorted(self.alive):
            self.do(["poll", c])
        for c in sorted(self.alive, reverse=self.rng.random() < .5):
            self.do(["drop", c])
        return self.ops


def concrete(walk, rng, simple=False):
    s = Script(rng, simple)
    for o in walk:
        s.do(list(o))
    return s.finish()


def wide(rng, length, nctx, weights, simple=False, maxactive=8, slots=NSLOT):
    """Random behaviours beyond the bounds of the model (more files, more operations in flight)."""
    s = Script(rng, simple)
    s.do(["ctx", nctx])
    kinds, ws = zip(*weights.items())
    for _ in range(length):
        k = rng.choices(kinds, ws)[0]
        have = sorted(s.slot)
        free = [i for i in range(1, slots + 1) if i not in s.slot]
        al = sorted(s.alive)
        if not al:
            break
        if k in ("new", "nat", "ctor", "ctorfail"):
            if free:
                f, c = rng.choice(free), rng.choice(al)
                s.do([k, f, c] if k in ("new", "nat") else ["ctor", f, c, int(k == "ctor"), rng.randrange(2)])
        elif k == "poll":
            s.do([k, rng.choice(al)])
        elif k in ("step", "begin", "fault", "commit"):
            c = rng.choice(al)
            if s.running(c):
                s.do(["end", c])
            elif k == "commit":
                if s.committable(c):
                    s.do(["commit", c])
            else:
                s.do([k, c] if k != "fault" else ["step", c, rng.choice(["err", "intr", "cap", "cap"])])
        elif k == "drop":
            c = rng.choice(al)
            if rng.random() < .5 and not any(e[4] == "commit" for e in s.q):
                for f in have:
                    if s.slot[f][0] == c:
                        s.do(["del", f])
            if s.can_drop(c):
                s.do(["drop", c])
        elif not have:
            continue
        else:
            f = rng.choice(have)
            op = s.slot[f][1]
            if k in ("open", "openfail"):
                if not op:
                    s.do(["open", f, int(k == "open")])
                elif all(e[4] != "commit" for e in s.q) and rng.random() < .4:
                    s.ops.append(["open", f, s.path() if k == "open" else 0, s.thr()])      # it is open already
            elif k == "cancel":
                if op or not any(e[2] == s.slot[f][2] and not e[4] for e in s.q):
                    s.do(["cancel", f])
            elif k in ("close", "del"):
                s.do([k, f])
            elif k == "mc":
                if free:
                    s.do(["mc", f, rng.choice(free)])
            elif k == "ma":
                s.do(["ma", f, rng.choice(have)])
            elif k in ("start", "own") and len(s.q) < maxactive:
                s.do(["start", f, s.slot[f][0], rng.choice([0, 0] + al), 2 if k == "own" else 0])
    return s.finish()


W = dict(new=1, nat=2, ctor=1, ctorfail=.3, open=2, openfail=.5, close=1, cancel=1, mc=1, ma=1.5, start=8, step=6, begin=2, poll=3,
         own=.4)
# the emphasis of each property's random scripts
WEIGHTS = {
    "A01": dict(W, own=.5, drop=.1, **{"del": .5}),
    "A02": dict(W, start=14, begin=3, commit=3, cancel=2, step=9, fault=4, close=.5, mc=.2, ma=.2, **{"del": .2}),
    "A03": dict(W, commit=3, close=2.5, cancel=3.5, open=4, step=4, **{"del": .7}),
    "A04": dict(W, commit=2, mc=4, ma=4, ctorfail=1, ctor=2, **{"del": 1}),
    "A05": dict(W, commit=1, own=2, drop=1.2, **{"del": 1.5}),
}


def run(ctx, prop, graphs):
    h = vlib.build("async_file.cpp", config=ctx.scale("asio", "boost-asio"), flags=ASAN)
    simple = prop in ("A01", "A03", "A05")
    scripts = []
    for gname in graphs:
        init, g = ctx.graph("MCAsyncFile", "MCAsyncFile_%s.cfg" % gname)
        w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
        ctx.notes["transition_cover_" + gname] = [done, total]
        scripts += [("%s-%d" % (gname, i), concrete(x, ctx.rng, simple or gname == "commit")) for i, x in enumerate(w)]
        if done < 3000:
            for k in range(ctx.scale(2, 20)):
                w, _, _ = vlib.cover_walks(init, g, ctx.rng, maxlen=60)
                scripts += [("%s+%d-%d" % (gname, k, i), concrete(x, ctx.rng, gname == "commit")) for i, x in enumerate(w)]
    n = ctx.scale(150, 2500)
    for i in range(n):
        scripts.append(("wide%d" % i, wide(ctx.rng, 60, ctx.rng.choice([1, 2, 2]), WEIGHTS[prop], i % 2 == 0)))
    # long transfers: every byte of the specification stands for a block of bytes
    for i in range(ctx.scale(15, 150)):
        scripts.append(("long%d" % i, [["blocks", ctx.rng.choice([37, 256, 4096, 32768, 65536, 100003])]] +
                        wide(ctx.rng, 40, ctx.rng.choice([1, 2]), WEIGHTS[prop], i % 2 == 0)))
    ctx.conform("async_file", h, "TraceAsyncFile", scripts, cfg="TraceAsyncFile_%s.cfg" % prop)
    if ctx.thorough:
        # the same with the library's own file type (whose executor cannot be marked) and the other configuration
        h2 = vlib.build("async_file.cpp", config="asio", flags=ASAN + ["-DPLAIN_EXECUTOR"])
        plain = [("p" + k, [o[:3] + [0] + o[4:] if o[0] in ("new", "nat", "ctor") else o for o in ops])
                 for k, ops in scripts if k.startswith("wide")]
        ctx.conform("async_file_plain", h2, "TraceAsyncFile", plain, cfg="TraceAsyncFile_%s.cfg" % prop)


def A01(ctx):
    run(ctx, "A01", ["A01"])


def late(rng):
    """A file is closed while the pool is about to make a transfer on it, and another file gets its number."""
    w = rng.random() < .5
    n, off, p = rng.choice([1, 2, 3]), rng.choice([-1, -1, 0, 1]), rng.choice([1, 2])
    ops = [["ctx", 1], ["nat", 1, 1, 1, p, 0]]
    ops.append(["wr", 1, off, list(range(1, n + 1)), [n], 0, 0, 0, 1] if w else ["rd", 1, off, [n], 0, 0, 0, 1])
    ops.append(["commit", 1])
    how = rng.choice(["close", "del", "ma"])
    ops += [[how, 1, rng.randrange(2)]] if how == "close" else [[how, 1]] if how == "del" else \
           [["new", 2, 1, 1], ["ma", 2, 1]]
    q = 3 - p
    ops += [["open", 1, q, 0]] if how == "close" and rng.random() < .5 else [["nat", 3, 1, 1, q, 0]]
    return ops + [["end", 1], ["poll", 1]] + [["del", s] for s in (1, 2, 3)] + [["drop", 1]]


def A02(ctx):
    run(ctx, "A02", ["A02", "A02r", "commit"])
    # the known finding, and that nothing else happens on that occasion
    h = vlib.build("async_file.cpp", config=ctx.scale("asio", "boost-asio"), flags=ASAN)
    scripts = [("late%d" % i, late(ctx.rng)) for i in range(ctx.scale(60, 300))]
    ctx.conform("late", h, "TraceAsyncFile", scripts, cfg="TraceAsyncFile_A02_known.cfg")
    ctx.conform("late_strict", h, "TraceAsyncFile", scripts, cfg="TraceAsyncFile_A02.cfg",
                sig=lambda script, trace, at: "A02:transfer-after-close"
                if 0 < at <= len(trace) and trace[at - 1].get("op") in ("end", "poll") else "A02:late")


def A03(ctx):
    run(ctx, "A03", ["A03", "commit"])


def A04(ctx):
    run(ctx, "A04", ["A04", "A04x", "commit"])


def A05(ctx):
    run(ctx, "A05", ["A05"])


# --- A06: several threads
THREADS = {"rd": 4, "wr": 4, "call": 4, "ctor": 3, "take": 1.5, "mc": 2, "ma": 1.5, "cancel": .5, "close": .7}


def threads(ctx, init, g, mode, nthr, length):
    """A script for nthr threads, each following a random walk of the specification's one-thread behaviours."""
    rng = ctx.rng
    npool, nrun = rng.choice([1, 2, 3]), rng.choice([1, 2, 2])
    lines = [["cfg", npool, nrun, mode, nthr]]
    for t in range(1, nthr + 1):
        cur = rng.choice(init)
        for _ in range(length):
            kinds = {}
            for o, b in g[cur]:
                kinds.setdefault(o[0], []).append((o, b))
            if not kinds:
                break
            ks = sorted(kinds)
            o, cur = rng.choice(kinds[rng.choices(ks, [THREADS.get(k, 1) for k in ks])[0]])
            for k in [o[0]]:
                if k in ("call", "pool", "next", "endfile", "stop", "drop", "gone"):
                    continue
                if k == "ctor":
                    lines.append([t, "ctor", o[1], o[2], rng.randrange(3)])
                elif k == "open":
                    lines.append([t, "open", o[1], rng.randrange(3)])
                elif k in ("rd", "wr"):
                    # in stop mode contexts go away with work pending: handlers stay with their file's context
                    hc = o[2] if mode == "drain" else 0
                    lines.append([t, k, o[1], hc, rng.choice([1, 4, 16])])
                elif k == "take":
                    lines.append([t, "take", o[1], rng.randrange(4), rng.choice([1, 4, 16])])
                else:
                    lines.append([t] + list(o))
    return lines


def A06(ctx):
    ctx.model("MCAsyncThreads", "MCAsyncThreads%s.cfg" % ctx.scale("", "_deep"), timeout=800)
    ctx.model("MCAsyncThreads", "MCAsyncThreads_live.cfg")
    init, g = ctx.graph("MCAsyncThreads", "MCAsyncThreads_gen.cfg")
    n = ctx.scale(150, 1500)
    scripts = [("%s%d" % (m, i), threads(ctx, init, g, m, ctx.rng.choice([2, 3, 4]), ctx.rng.choice([8, 40, 120])))
               for i in range(n) for m in ("drain", "stop")]
    # a race report, or memory misused, ends the program: no specification accepts that
    ht = vlib.build_tsan("async_threads.cpp", config=ctx.scale("asio-header-only", "boost-asio"))
    ctx.conform("threads_tsan", ht, "TraceAsyncThreads", scripts, retries=6, timeout=60)
    ha = vlib.build("async_threads.cpp", config="asio", flags=ASAN)
    ctx.conform("threads", ha, "TraceAsyncThreads", scripts, retries=6, timeout=60)
