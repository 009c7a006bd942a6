"""G01: flag types."""
import vlib

SIMPLE = {
    "open_flags": ["access_read", "access_write", "create_new", "create_always", "open_existing", "open_always", "truncate_existing",
                   "exclusive_read", "exclusive_write", "internal_async"],
    "file_attrs": ["hidden", "system", "archive", "no_dump", "not_indexed", "user_immutable", "system_immutable", "user_no_unlink",
                   "system_no_unlink"],
    "file_perm_options": ["replace", "add", "remove"], "file_attr_options": ["replace", "add", "remove"],
    "file_perms": [w + "_" + x for w in ("owner", "group", "others") for x in ("read", "write", "exec", "all")] +
                  ["all", "sticky_bit", "set_gid", "set_uid", "mask", "create_default"]}
MORE = {"open_flags": ["none", "access_read_write"], "file_attrs": ["none"], "file_perms": ["none"], "file_perm_options": [],
        "file_attr_options": []}
OPS = ["and", "or", "xor"]


def bits(bs):
    return ",".join(str(b) for b in sorted(bs)) or "-"


def concrete(walk, rng, t):
    ops = [["new", t]]
    for o in walk:
        if o[0] == "bits":
            ops.append(["bits", o[1], bits(o[2])])
        elif o[0] != "init":
            ops.append(list(o))
        ops.append(["ask", rng.randrange(2), rng.randrange(2)])
    return ops


def names(rng, t, length):
    ops = [["new", t]] + [["name", 2, n] for n in rng.sample(SIMPLE[t], len(SIMPLE[t]))]
    S = range(3)
    for _ in range(length):
        c = rng.choice(["name", "name", "name", "bits", "bin", "bin", "asg", "chain", "not", "rem", "ask", "ask"])
        r = [rng.choice(S) for _ in range(3)]
        if c == "name":
            ops.append([c, r[0], rng.choice(SIMPLE[t] + MORE[t])])
        elif c == "bits":
            ops.append([c, r[0], bits({rng.randrange(32) for _ in range(rng.choice([0, 1, 2, 8, 40]))})])
        elif c in ("bin", "asg"):
            ops.append([c, rng.choice(OPS)] + r[:3 if c == "bin" else 2])
        elif c == "chain":
            ops.append([c, rng.choice(OPS), r[0], r[1], rng.choice(OPS), r[2]])
        else:
            ops.append([c] + r[:{"not": 2, "rem": 3, "ask": 2}[c]])
    return ops


def G01(ctx):
    init, g = ctx.graph("MCFlags", "MCFlags.cfg")
    w, done, total = vlib.cover_walks(init, g, ctx.rng, maxlen=200)
    ctx.notes["transition_cover"] = [done, total]
    scripts = []
    for t in SIMPLE:
        some = w if ctx.thorough else ctx.rng.sample(w, min(len(w), 12))
        scripts += [("cov_%s_%d" % (t, i), concrete(x, ctx.rng, t)) for i, x in enumerate(some)]
        scripts += [("names_%s_%d" % (t, i), names(ctx.rng, t, 60)) for i in range(ctx.scale(60, 1500))]
    for cfg in ["standalone-header-only", "boost-asio"] if ctx.thorough else ["standalone-header-only"]:
        h = vlib.build("flags.cpp", config=cfg, flags=["-fsanitize=address,undefined"])
        ctx.conform("flags_" + cfg, h, "TraceFlags", scripts)
