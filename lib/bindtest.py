#!/usr/bin/env python3
"""bindtest.py PROPERTY...: is the binding awake? Corrupts one recorded value at a time in traces the
specification accepts and reports, per kind of event and field, how many of the corrupted traces it
still accepts. (A tool for the author of the checks; not itself a check.)"""
import copy, json, os, sys, collections
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import vlib


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            if k != "op":
                yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        yield path, x
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, x


def field(p):
    return ".".join("#" if isinstance(k, int) else k for k in p)


def main(prop, per=8):
    seen = []
    orig = vlib.Ctx.conform

    def conform(self, what, binary, module, scripts, cfg=None, tlc_env=None, **kw):
        if len(scripts) > 400:
            scripts = self.rng.sample(scripts, 400)
        traces, rej = orig(self, what, binary, module, scripts, cfg=cfg, tlc_env=tlc_env, **kw)
        good = [traces[k] for k in traces if k not in rej]
        pool = collections.defaultdict(dict)     # values seen, by (op, field)
        where = collections.defaultdict(list)
        for ti, t in enumerate(good):
            for ei, e in enumerate(t):
                for p, v in leaves(e):
                    key = (e["op"], field(p))
                    pool[key][json.dumps(v)] = v
                    if len(where[key]) < 4000:
                        where[key].append((ti, ei, p))
        jobs = []
        for key, w in sorted(where.items()):
            vals = pool[key]
            for n in range(per):
                ti, ei, p = self.rng.choice(w)
                t = copy.deepcopy(good[ti])
                x = t[ei]
                for k in p[:-1]:
                    x = x[k]
                old = x[p[-1]]
                others = [v for j, v in vals.items() if j != json.dumps(old)]
                if isinstance(old, bool):
                    new = not old
                elif isinstance(old, list):
                    new = copy.deepcopy(old)
                    if old and self.rng.random() < .5:
                        new.pop(self.rng.randrange(len(new)))
                    elif others and self.rng.random() < .6:
                        new = self.rng.choice(others)
                    elif old:
                        new.append(copy.deepcopy(old[0]))
                    else:
                        continue
                    if new == old:
                        continue
                elif others:
                    new = self.rng.choice(others)
                elif isinstance(old, int):
                    new = old + 1
                else:
                    continue
                x[p[-1]] = new
                jobs.append((key, old, new, t))
        seen.append((what, module, cfg, tlc_env, jobs))
        return traces, rej

    vlib.Ctx.conform = conform
    ctx = vlib.Ctx(prop, "quick", 7)
    ctx.model = lambda *a, **k: None
    import registry
    registry.CHECKS[prop](ctx)
    res = collections.OrderedDict()

    def some(module, cfg, env, ts):
        try:
            rej, _, _ = vlib.validate(module, dict(enumerate(ts)), cfg=cfg, env=env, jobs=1)
            return [i in rej for i in range(len(ts))]
        except vlib.CheckError:
            if len(ts) == 1:
                return [True]
            h = len(ts) // 2
            return some(module, cfg, env, ts[:h]) + some(module, cfg, env, ts[h:])

    for what, module, cfg, env, jobs in seen:
        parts = [jobs[i:i + 40] for i in range(0, len(jobs), 40)]
        with ThreadPoolExecutor(3) as ex:
            got = sum(ex.map(lambda p: some(module, cfg, env, [j[3] for j in p]), parts), [])
        for (key, old, new, t), r in zip(jobs, got):
            a = res.setdefault((what,) + key, [0, 0, None])
            a[0] += 1
            a[1] += r
            if not r:
                a[2] = (old, new)
    for k, (n, r, ex) in res.items():
        if r < n:
            print("%s %-16s %-10s %-14s rejected %d of %d   e.g. %s" % ((prop,) + k + (r, n, json.dumps(ex)[:150])))
    print(prop, "corrupted traces rejected:", sum(v[1] for v in res.values()), "of", sum(v[0] for v in res.values()), flush=True)


for p in sys.argv[1:]:
    main(p)
