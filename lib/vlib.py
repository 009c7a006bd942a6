"""Shared machinery: building harnesses against /repo, running them on scripts,
and deciding the recorded traces with TLC."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 4))


class CheckError(Exception):
    """The check itself failed (not a verdict about the code)."""


class Uncompilable(CheckError):
    """A harness, which uses the public interface only, does not compile although the library itself does."""


def log(*a):
    print("#", *a, flush=True)


# --------------------------------------------------------------------------
# building

CONFIGS = {
    # name: (defines, link libraries, separate compilation)
    "asio": (["-DASIOEXT_SEPARATE_COMPILATION"], ["-lboost_filesystem", "-lboost_system"], True),
    "asio-header-only": ([], ["-lboost_filesystem", "-lboost_system"], False),
    "boost-asio": (["-DASIOEXT_SEPARATE_COMPILATION", "-DASIOEXT_USE_BOOST_ASIO"],
                   ["-lboost_filesystem", "-lboost_system"], True),
    "standalone": (["-DASIOEXT_SEPARATE_COMPILATION", "-DASIOEXT_STANDALONE"], [], True),
    "standalone-header-only": (["-DASIOEXT_STANDALONE"], [], False),
}


def _hash_tree(h, top):
    for dp, dn, fn in os.walk(top):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(dp, f)
            h.update(os.path.relpath(p, top).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())


def repo_hash():
    h = hashlib.sha256()
    for d in ("include", "src"):
        _hash_tree(h, os.path.join(REPO, d))
    return h.hexdigest()


def _run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace", **kw)


def build(src, config="standalone-header-only", flags=(), name=None, opt="-O0", extra=(), internal=False, more=()):
    """Compile harness/<src> against /repo's current tree. Cached by content. internal: it uses more than the public interface.
    more: other translation units of the harness; extra: headers only it includes."""
    defs, libs, sep = CONFIGS[config]
    flags = list(flags)
    h = hashlib.sha256()
    h.update(repo_hash().encode())
    for f in [src, "common.hpp", "fdtrack.hpp", "netns.hpp"] + list(extra) + list(more):
        p = os.path.join(HARN, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h.update(json.dumps([src, config, flags, opt]).encode())
    key = h.hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (name or os.path.splitext(src)[0], key))
    if os.path.exists(out):
        return out
    tmpd = tempfile.mkdtemp(prefix="vb")
    try:
        base = ["g++", "-std=gnu++20", "-g", opt, "-w", "-I", os.path.join(REPO, "include"),
                "-I", HARN] + defs + flags
        jobs = [(base + ["-c", os.path.join(HARN, src), "-o", tmpd + "/h.o"])]
        objs = [tmpd + "/h.o"]
        for i, m in enumerate(more):
            objs.append(tmpd + "/m%d.o" % i)
            jobs.append(base + ["-c", os.path.join(HARN, m), "-o", objs[-1]])
        if sep:
            jobs.append(base + ["-c", os.path.join(REPO, "src/asioext.cpp"), "-o", tmpd + "/l.o"])
            objs.append(tmpd + "/l.o")
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            for r in ex.map(_run, jobs):
                if r.returncode:
                    text = "harness %s [%s] does not compile:\n%s" % (src, config, r.stdout[:6000])
                    own = _run(base + ([] if sep else ["-DASIOEXT_SEPARATE_COMPILATION"]) +
                               ["-fsyntax-only", os.path.join(REPO, "src/asioext.cpp")])
                    raise (CheckError if own.returncode or internal else Uncompilable)(text)
        r = _run(["g++", "-o", tmpd + "/out"] + flags + objs + libs + ["-pthread", "-ldl"])
        if r.returncode:
            raise CheckError("harness %s [%s] does not link:\n%s" % (src, config, r.stdout[-4000:]))
        tmpo = out + "." + os.path.basename(tmpd)
        shutil.copy2(tmpd + "/out", tmpo)
        os.replace(tmpo, out)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    return out


_TSAN = []


def tsan_works():
    """Whether this machine can run ThreadSanitizer programs at all."""
    if not _TSAN:
        d = tempfile.mkdtemp(prefix="vs")
        try:
            open(d + "/t.cpp", "w").write("#include <thread>\nint main(){std::thread t([]{}); t.join();}\n")
            r = _run(["g++", "-fsanitize=thread", d + "/t.cpp", "-o", d + "/t"])
            _TSAN.append(r.returncode == 0 and _run([d + "/t"], timeout=60).returncode == 0)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _TSAN[0]


def build_tsan(src, **kw):
    """With ThreadSanitizer (a report makes the harness die, which no specification accepts), or plain where it cannot run."""
    fl = list(kw.pop("flags", ()))
    if tsan_works():
        return build(src, flags=fl + ["-fsanitize=thread"], opt="-O1", **kw)
    log("ThreadSanitizer does not run here: threads are run without it")
    return build(src, flags=fl, **kw)


def build_many(specs):
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda kw: build(**kw), specs))


# --------------------------------------------------------------------------
# running a harness over scripts
#
# A script is (id, [op, ...]) where op is a list of tokens; a trace is the list
# of JSON events the harness wrote while running it. A harness that dies or
# hangs leaves a CRASH/HANG event, which no specification accepts.

def _tok(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, (list, tuple)):
        return ",".join(str(int(i)) for i in x) if x else "-"
    s = str(x)
    return s if s else "-"


def _run_part(binary, part, env, timeout, args):
    """Runs scripts [(id, ops)...] sequentially, surviving crashes."""
    traces = {}
    tmpd = tempfile.mkdtemp(prefix="vh")
    shm = None
    try:
        todo = list(part)
        restarts = 0
        while todo:
            sf, tf, ef = tmpd + "/s", tmpd + "/t", tmpd + "/e"
            with open(sf, "w") as f:
                for i, (sid, ops) in enumerate(todo):
                    f.write("S %d\n" % i)
                    for op in ops:
                        f.write(" ".join(_tok(t) for t in op) + "\n")
                    f.write("E\n")
            open(tf, "w").close()
            work = tmpd + "/w"
            if (env or {}).get("HARNESS_SHM") and os.access("/dev/shm", os.W_OK):
                shm = shm or tempfile.mkdtemp(prefix="vh", dir="/dev/shm")
                work = shm + "/w"
            shutil.rmtree(work, ignore_errors=True)
            os.mkdir(work)
            e = dict(os.environ)
            e.update({"HARNESS_TIMEOUT": str(timeout), "HARNESS_DIR": work, "LC_ALL": "C",
                      "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1",
                      "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0",
                      "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1"})
            e.update(env or {})
            with open(ef, "wb") as err:
                p = subprocess.Popen([binary, sf, tf] + list(args), stdout=err, stderr=err,
                                     env=e, cwd=work, start_new_session=True)
                try:
                    p.wait(timeout=timeout * 4 + 2.0 * len(todo) + 60)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            cur, done = None, 0
            evs = {}
            finished = set()
            with open(tf, errors="replace") as f:
                for line in f:
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if "BEGIN" in o:
                        cur = o["BEGIN"]; evs[cur] = []
                    elif "END" in o:
                        finished.add(o["END"])
                    elif "FATAL" in o:
                        raise CheckError("harness %s: %s" % (binary, o["FATAL"]))
                    elif cur is not None:
                        evs[cur].append(o)
            for i, (sid, ops) in enumerate(todo):
                if i in finished:
                    traces[sid] = evs[i]; done = i + 1
            if len(finished) == len(todo) and p.returncode == 0:
                break
            if cur is None:
                raise CheckError("harness %s did not start: %s" % (binary, open(ef, errors="replace").read()[-2000:]))
            if len(finished) == len(todo):
                # died after the last script (static destruction): blame the last one
                cur = len(todo) - 1
            rc = p.returncode
            tail = open(ef, errors="replace").read()[-3000:]
            kind = "HANG" if rc in (-signal.SIGALRM, -signal.SIGKILL) else "CRASH"
            sid = todo[cur][0]
            traces[sid] = evs.get(cur, []) + [{"op": kind, "rc": rc, "stderr": tail}]
            todo = todo[cur + 1:]
            restarts += 1 if kind == "CRASH" else 8
            if restarts > 23:     # hopeless: enough evidence already
                break
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
        if shm:
            shutil.rmtree(shm, ignore_errors=True)
    return traces


def run_harness(binary, scripts, env=None, timeout=20, jobs=JOBS, args=()):
    if not scripts:
        return {}
    n = max(1, min(jobs, (len(scripts) + 3) // 4))
    parts = [scripts[i::n] for i in range(n)]
    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for t in ex.map(lambda p: _run_part(binary, p, env, timeout, args), parts):
            out.update(t)
    return out


# --------------------------------------------------------------------------
# TLC

_RE_STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc(module, cfg, env=None, workers=1, mem="2g", timeout=600, args=(), cwd=SPEC):
    md = tempfile.mkdtemp(prefix="vt")
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
        cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xmx" + mem, "-Xss16m"] + gc + ["-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", cwd=cwd, env=e, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        m = None
        for m in _RE_STATES.finditer(r.stdout):
            pass
        st = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        return r.returncode, r.stdout, st
    finally:
        shutil.rmtree(md, ignore_errors=True)


def model_check(module, cfg, workers=4, mem="6g", timeout=800, env=None, args=()):
    """Exhaustively checks a spec's own properties. Returns (generated, distinct)."""
    rc, out, st = tlc(module, cfg, workers=workers, mem=mem, timeout=timeout, env=env, args=args)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("the specification %s/%s fails its own properties:\n%s" % (module, cfg, out[-5000:]))
    return st


def validate(module, traces, cfg=None, jobs=JOBS, timeout=700, mem="3g", env=None):
    """Decides traces {id: [event...]} with spec/<module>.tla.
    Returns (rejected {id: index of the first unexplained event (1-based)}, states, transitions)."""
    cfg = cfg or module + ".cfg"
    ids = [i for i in traces]
    if not ids:
        return {}, 0, 0
    total = sum(len(traces[i]) for i in ids)
    n = max(1, min(jobs, total // 400 + 1, len(ids)))
    parts = [[] for _ in range(n)]
    loads = [0] * n
    for i in sorted(ids, key=lambda i: -len(traces[i])):
        k = loads.index(min(loads))
        parts[k].append(i)
        loads[k] += len(traces[i]) + 2
    tmpd = tempfile.mkdtemp(prefix="vv")

    def one(k):
        fn, todo, rej, st = "%s/tr%d.json" % (tmpd, k), list(parts[k]), {}, [0, 0]
        for i in todo:          # the program died or hung: no specification accepts that
            if traces[i] and traces[i][-1]["op"] in ("CRASH", "HANG"):
                rej[i] = len(traces[i])
        for attempt in range(6):
            with open(fn, "w") as f:
                for i in todo:
                    f.write(json.dumps({"id": str(i), "ev": [e for e in traces[i] if e["op"] not in ("CRASH", "HANG")]}) + "\n")
            ee = {"TRACES": fn}
            ee.update(env or {})
            rc, out, s1 = tlc(module, cfg, env=ee, workers=1, mem=mem, timeout=timeout)
            st[0] += s1[0]; st[1] += s1[1]
            found = {todo[int(m.group(1)) - 1]: int(m.group(2)) for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out)}
            m = re.search(r'<<"VALIDATED", (\d+), (\d+)>>', out)
            if m and int(m.group(1)) == len(todo) and int(m.group(2)) == len(todo) - len(found):
                rej.update(found)
                return rej, st
            # An event that means nothing to the specification (a value of another type, say, that the
            # code under test cannot return) is an event it does not explain.
            err = out.find("Error: ")
            tids = re.findall(r"(?m)^/\\ tid = (\d+)$", out[err:]) if err >= 0 else []
            ls = re.findall(r"(?m)^/\\ l = (\d+)$", out[err:]) if err >= 0 else []
            if not tids or not ls or attempt == 5 or not 1 <= int(tids[-1]) <= len(todo):
                raise CheckError("TLC failed on %s: rc=%d\n%s" % (module, rc, out[-5000:]))
            log("%s could not evaluate trace %s at event %s: %s" % (module, todo[int(tids[-1]) - 1], ls[-1], out[err:err + 600]))
            i = todo.pop(int(tids[-1]) - 1)
            rej[i] = int(ls[-1])
            if not todo:
                return rej, st

    try:
        rejected, gen, dist = {}, 0, 0
        with cf.ThreadPoolExecutor(n) as ex:
            for rej, st in ex.map(one, range(n)):
                rejected.update(rej)
                gen += st[0]; dist += st[1]
        return rejected, dist, gen
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


def behaviours(module, cfg, env=None, timeout=300, mem="4g"):
    """Explores spec/<module> exhaustively and returns its labelled transition graph:
    (initial node ids, {node: [(op, node')]}, states, transitions). The module prints one
    <<"T", json>> per transition, json = {f: view, o: op, t: view'}, and <<"I", json>> per initial state.
    The result depends on the specification only and is cached by content."""
    h = hashlib.sha256()
    for f in sorted(os.listdir(SPEC)):
        if f.endswith((".tla", ".cfg")):
            h.update(f.encode()); h.update(open(os.path.join(SPEC, f), "rb").read())
    h.update(json.dumps([module, cfg, env or {}]).encode())
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, "graph-%s-%s.json" % (cfg.replace(".cfg", ""), h.hexdigest()[:16]))
    if os.path.exists(cache):
        d = json.load(open(cache))
        return d["init"], {int(k): v for k, v in d["g"].items()}, d["st"][1], d["st"][0]
    rc, out, st = tlc(module, cfg, workers=1, mem=mem, timeout=timeout, env=env)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("exploration of %s/%s failed:\n%s" % (module, cfg, out[-4000:]))
    ids, g, init = {}, {}, []

    def nid(v):
        k = json.dumps(v, sort_keys=True)
        if k not in ids:
            ids[k] = len(ids); g[ids[k]] = []
        return ids[k]
    seen = set()
    for line in out.splitlines():
        if line.startswith('"T') or line.startswith('"I'):
            s = json.loads(line)       # TLA+ string literal == JSON string
            if s[0] == "I":
                k = nid(json.loads(s[2:]))
                if k not in init:
                    init.append(k)
            else:
                o = json.loads(s[2:])
                a, b = nid(o["f"]), nid(o["t"])
                key = (a, json.dumps(o["o"]), b)
                if key not in seen:
                    seen.add(key)
                    g[a].append((o["o"], b))
    d = {"init": init, "g": g, "st": st}
    tmp = cache + ".%d" % os.getpid()
    json.dump(d, open(tmp, "w")); os.replace(tmp, cache)
    return init, g, st[1], st[0]


def cover_walks(init, g, rng, maxlen=30, limit=None):
    """Walks from an initial node that together take every transition of the graph."""
    from collections import deque
    # BFS tree from the initial nodes
    parent = {i: None for i in init}
    q = deque(init)
    while q:
        a = q.popleft()
        for k, (o, b) in enumerate(g[a]):
            if b not in parent:
                parent[b] = (a, k)
                q.append(b)
    todo = {a: set(range(len(g[a]))) for a in g if a in parent}
    nodes = [a for a in todo if todo[a]]
    rng.shuffle(nodes)
    walks = []
    left = sum(len(v) for v in todo.values())
    total = left

    def path_to(a):
        p = []
        while parent[a] is not None:
            b, k = parent[a]
            p.append((b, k)); a = b
        return p[::-1]
    while left and nodes:
        while nodes and not todo[nodes[-1]]:
            nodes.pop()
        if not nodes:
            break
        a = nodes[-1]
        w = []
        for (b, k) in path_to(a):
            w.append(g[b][k][0])
            if k in todo[b]:
                todo[b].discard(k); left -= 1
        cur = a
        while len(w) < maxlen or todo[cur] and len(w) < 2 * maxlen:
            if not g[cur]:
                break
            if todo[cur]:
                k = rng.choice(sorted(todo[cur]))
                todo[cur].discard(k); left -= 1
            else:
                # prefer a successor with something left
                c = [k for k, (o, b) in enumerate(g[cur]) if todo.get(b)]
                if not c:
                    break
                k = rng.choice(c)
            w.append(g[cur][k][0])
            cur = g[cur][k][1]
        walks.append(w)
        if limit and len(walks) >= limit:
            break
    return walks, total - left, total


def random_walks(init, g, rng, n, length):
    out = []
    for _ in range(n):
        cur = rng.choice(init)
        w = []
        for _ in range(length):
            if not g[cur]:
                break
            o, b = rng.choice(g[cur])
            w.append(o); cur = b
        out.append(w)
    return out


# --------------------------------------------------------------------------
# verdicts

def known_findings():
    """Lines 'known: property=<id> <regex on the finding's signature> :: <text>' (fixed: lines are history)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations = [], []
        self.notes = {}
        self.opcount = {}
        self.assumptions = []
        self.budget = 150 if tier == "quick" else 780
        self.known_hits = []

    thorough = property(lambda s: s.tier == "thorough")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    def model(self, module, cfg, **kw):
        gen, dist = model_check(module, cfg, **kw)
        self.states += dist; self.transitions += gen
        self.notes.setdefault("exhaustive_models", {})[cfg] = {"distinct": dist, "generated": gen}
        log("model %s/%s: %d distinct states" % (module, cfg, dist))

    def graph(self, module, cfg, **kw):
        init, g, dist, gen = behaviours(module, cfg, **kw)
        self.states += dist; self.transitions += gen
        self.notes.setdefault("generated_from", {})[cfg] = {"nodes": len(g), "edges": sum(map(len, g.values()))}
        log("graph %s: %d nodes, %d transitions" % (cfg, len(g), sum(map(len, g.values()))))
        return init, g

    def conform(self, what, binary, module, scripts, cfg=None, env=None, timeout=20, retries=2, jobs=JOBS,
                focus=None, args=(), tlc_env=None, sig=None, post=None):
        """Run scripts through the real code and validate the traces. Confirmed rejections become violations."""
        t = time.time()
        traces = run_harness(binary, scripts, env=env, timeout=timeout, jobs=jobs, args=args)
        if post:
            traces = {k: post(v) for k, v in traces.items()}
        t1 = time.time()
        rej, dist, gen = validate(module, traces, cfg=cfg, env=tlc_env)
        self.states += dist; self.transitions += gen
        self.traces += len(traces); self.events += sum(len(v) for v in traces.values())
        for v in traces.values():
            for e in v:
                k = what + ":" + e.get("op", "?")
                self.opcount[k] = self.opcount.get(k, 0) + 1
        log("%s: %d traces, %d events, run %.1fs, tlc %.1fs, %d rejected" % (
            what, len(traces), sum(len(v) for v in traces.values()), t1 - t, time.time() - t1, len(rej)))
        byid = dict(scripts)
        if len(self.samples) < 6 and traces:
            k = sorted(traces, key=str)[self.rng.randrange(len(traces))]
            self.samples.append({"what": what, "script": byid[k][:12],
                                 "trace": traces[k][:4], "accepted": k not in rej})
        n = 0
        odd = []
        for k in sorted(rej, key=lambda k: (len(byid[k]), str(k))):
            if len(odd) >= 6:
                break
            # a rejection counts only if running the script again is rejected again
            ok = False
            for _ in range(retries):
                t2 = run_harness(binary, [(k, byid[k])], env=env, timeout=timeout, jobs=1, args=args)
                if post:
                    t2 = {kk: post(v) for kk, v in t2.items()}
                r2, _, _ = validate(module, t2, cfg=cfg, env=tlc_env)
                if k in r2:
                    ok = True
                    self.report(what, byid[k], t2[k], r2[k], module, sig)
                    break
            if not ok:
                odd.append(k)
                continue
            n += 1
            if n >= 3:
                break
        if odd and not n:
            # it may take what ran before it in the same process: the whole batch once more
            t2 = run_harness(binary, scripts, env=env, timeout=timeout, jobs=jobs, args=args)
            if post:
                t2 = {kk: post(v) for kk, v in t2.items()}
            r2, _, _ = validate(module, t2, cfg=cfg, env=tlc_env)
            for k in sorted(set(rej) & set(r2), key=lambda k: (len(byid[k]), str(k)))[:3]:
                log("%s %s is rejected only after other behaviours in the same process" % (what, k))
                self.report(what, byid[k], t2[k], r2[k], module, sig)
                n += 1
        if odd and not n:
            for k in odd:
                log("unrepeated rejection of %s %s ignored (first run: event %d of %s)" % (
                    what, k, rej[k], json.dumps(traces[k])[:500]))
            self.notes["unrepeated_rejections"] = self.notes.get("unrepeated_rejections", 0) + len(odd)
        return traces, rej

    def report(self, what, script, trace, at, module, sig=None):
        bad = trace[at - 1] if 0 < at <= len(trace) else {"op": "INCOMPLETE"}
        s = sig(script, trace, at) if sig else "%s:%s" % (what, bad.get("op"))
        for (p, k, text) in known_findings():
            if p == self.prop and s == k:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (p, text), flush=True)
                return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "check": what, "spec": module, "signature": s, "script": script,
                       "trace": trace, "first_unexplained_event": at, "event": bad,
                       "note": "the specification explains the trace up to, but not including, this event"},
                      f, indent=1)
        self.violations.append(path)
        print("  %s: event %d not allowed by %s: %s" % (what, at, module, json.dumps(bad)[:600]), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def finish(self, level="model_checking", extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "events_by_op": dict(sorted(self.opcount.items())), "samples": self.samples}
        cov.update(self.notes)
        cov.update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                       "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}, f, indent=1)
        log("%s %s: %d traces, %d events, %.1fs, %d violation(s)" % (
            self.prop, self.tier, self.traces, self.events, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def number(prefix, walks):
    return [("%s%d" % (prefix, i), w) for i, w in enumerate(walks)]
