"""C23 - results do not depend on the environment."""
import json
import os
import pickle
import re
import subprocess
import sys

from vlib import gen, mutate, oracle as O, rawnc
from vlib.harness import HERE, Inconclusive

PROP = "C23"
RULE = ("one process executes a sequence of calls (creating, verifying in all "
        "modes, reporting, comparing, refused and accepted changes, writing, "
        "reading, streaming, upgrading) on random valid and invalid objects "
        "and records every result; the same sequence is executed in other "
        "environments (directory and its content, relative paths, encoding, "
        "time zone, hash seed, optimised code, order of directory entries, "
        "warning filters, thread, imports, print options, garbage "
        "collection) and all results and files are compared; distinct by "
        "environment and label of the result")
QUICK = (16, 2)
THOROUGH = (120, 8)
CSV = True
REQUIRED = ["processes", "results_compared", "files_compared",
            "env_listing", "env_optimised", "env_ascii", "env_hash",
            "env_directory", "env_filters"]
ENVS = {
    "listing": [{"listing": "reverse"}, {"listing": "shuffle"}],
    "optimised": [{"flags": ["-O", "-W", "always"]},
                  {"flags": ["-OO", "-W", "always"]}],
    "ascii": [{"vars": {"LC_ALL": "C", "PYTHONUTF8": "0",
                        "PYTHONCOERCECLOCALE": "0"}}],
    "hash": [{"vars": {"PYTHONHASHSEED": "1"}},
             {"vars": {"PYTHONHASHSEED": "77"}}],
    "directory": [{"cwd": "hostile"}, {"cwd": "/"},
                  {"cwd": "hostile", "relative": True},
                  {"cwd": "package", "relative": True},
                  {"cwd": "removed"}],
    "filters": [{"flags": ["-W", "ignore"]}, {"flags": []},
                {"flags": ["-W", "default"]}],
    "zone": [{"vars": {"TZ": "Asia/Kathmandu", "LANG": "de_DE.UTF-8"}}],
    "import": [{"import": "relative", "cwd": "hostile"},
               {"import": "submodule"}, {"import": "star"}],
    "thread": [{"thread": True}],
    "printing": [{"print": "short"}, {"print": "legacy"}],
    "gc": [{"gc": True}, {"umask": True}],
    "development": [{"flags": ["-X", "dev", "-W", "always"]}],
}


def models(ctx, n):
    rng = ctx.rng
    g = gen.Gen(ctx, rng.choice(["read", "write", "write"]))
    out = []
    while len(out) < n:
        m = g.random()
        if m is None:
            continue
        if rng.random() < .4:
            for _ in range(rng.randint(1, 3)):
                rng.choice([lambda: mutate.shape(rng, ctx.np, m),
                            lambda: mutate.type_(rng, ctx.np, m),
                            lambda: g.set_text(m)])()
        for k in gen.DYNAMIC:
            if m.entries.get(k) is gen.DYN:
                m.entries[k] = "2020-02-02 20:20:20"
        ops = []
        for _ in range(rng.randint(1, 4)):
            name = rng.choice(["Mine", "Yours", "GLOBAL_Mine", "Mine_Units",
                               "ReceiverPosition_Comment", "Bad_Name_X",
                               "GLOBAL_Ünits"])
            if "_" in name:
                ops.append(("add_attribute", (name, rng.choice(
                    ["a", "ä", "µm", 3]))))
            else:
                ops.append(("add_variable", (name, *rng.choice([
                    ([1., 2.], "double", "T"), (1, "double", "I"),
                    ("ü", "string", "IS"), (["a", "bb"], "string", "TS"),
                    (1, "double", "IS"), (1, "nonsense", "I")]))))
        m.targets = [t for f in ctx.cat.upgrade.get(m.conv.name, {}).get(
            "from_to", []) if m.conv.version in f[0] for t in f[1]][:1]
        out.append((m, ops))
    return out


def execute(ctx, name, env, mods):
    work = ctx.path(name)
    os.makedirs(work)
    env = dict(env)
    gone = None
    if env.get("cwd") == "hostile":
        env["cwd"] = d = ctx.path(name + "_cwd")
        # names that are looked up relative to the package
        for sub in ("conventions/deprecated", "rules",
                    "sofa_conventions/conventions/deprecated",
                    "sofa_conventions/rules", "sofar/sofa_conventions"):
            os.makedirs(os.path.join(d, sub))
        for f in ("VERSION", "sofa_conventions/VERSION", "rules.json",
                  "rules/rules.json", "rules/unit_aliases.json",
                  "rules/deprecations.json", "rules/upgrade.json",
                  "conventions/GeneralTF_9.0.json",
                  "sofa_conventions/conventions/GeneralTF_9.0.json",
                  "sofa_conventions/rules/rules.json", "0.txt.bak"):
            with open(os.path.join(d, f), "w") as h:
                h.write("{}")
    elif env.get("cwd") == "package":
        env["cwd"] = ctx.env.pkg
    elif env.get("cwd") == "removed":
        gone = env["cwd"] = ctx.path(name + "_removed")
        os.makedirs(gone)
    job = {"env": env, "base": ctx.env.base, "work": work, "seed": ctx.seed,
           "models": mods, "names": [
               (c.name, c.version) for c in ctx.cat.conventions[::3]]}
    jp, rp = ctx.path(name + ".pickle"), ctx.path(name + ".json")
    with open(jp, "wb") as f:
        pickle.dump(job, f)
    variables = {k: v for k, v in os.environ.items()
                 if k not in ("LC_ALL", "LANG", "PYTHONUTF8", "TZ")}
    variables.update(LC_ALL="C.UTF-8", PYTHONHASHSEED="0")
    variables.update(env.get("vars", {}))
    flags = env.get("flags", ["-W", "always"])
    if gone:
        # the directory of the process is removed while it runs
        cmd = ["/bin/sh", "-c", 'cd "$1" && rmdir "$1" && shift && exec "$@"',
               "sh", gone]
        env.pop("cwd")
        with open(jp, "wb") as f:
            pickle.dump(job, f)
    else:
        cmd = []
    try:
        p = subprocess.run(
            cmd + [sys.executable, "-B", *flags,
                   os.path.join(HERE, "vlib", "scenario.py"), jp, rp],
            env=variables, capture_output=True, timeout=300)
    except subprocess.TimeoutExpired as e:
        raise Inconclusive(f"{name} took too long") from e
    if not os.path.exists(rp):
        if name == "base":
            raise RuntimeError(p.stderr.decode()[-3000:])
        ctx.fail(f"sofar does not work in the environment {name} {env}",
                 stderr=p.stderr.decode("utf-8", "replace")[-2500:])
    ctx.count("processes")
    with open(rp, encoding="utf-8") as f:
        return json.load(f), work


def kinds(env):
    """Which kinds of results have to be the same."""
    out = {"data", "text", "warning"}
    if "print" in env:
        out.discard("text")
    if env.get("flags") in (["-W", "ignore"], [], ["-W", "default"]):
        out.discard("warning")
    return out


def judge(ctx, name, env, base, bdir, rows, work):
    use = kinds(env)
    # (the order in which names are listed in messages is not judged)
    base, rows = ([[r[0], r[1], sorted(re.findall(r"[\w.]+", r[2]))
                    if r[1] in ("text", "warning") else r[2]] for r in x]
                  for x in (base, rows))
    a = [r for r in base if r[1] in use and r[0] != "sofar"]
    b = [r for r in rows if r[1] in use or r[1] == "error"]
    b = [r for r in b if r[0] != "sofar"]
    for i, x in enumerate(a):
        y = b[i] if i < len(b) else ["nothing", "", ""]
        ctx.check(x == y, f"another result in the environment {name} {env}: "
                  f"{y[0]} {O.short(y[2], 400)} instead of {x[0]} "
                  f"{O.short(x[2], 400)}", difference=difference(x[2], y[2]))
        ctx.count("results_compared")
        ctx.keys.append(repr((name, x[0].split(" ", 2)[-1])))
    ctx.check(len(a) == len(b), f"further results {b[len(a):][:2]}")
    fa, fb = sorted(os.listdir(bdir)), sorted(os.listdir(work))
    ctx.check(fa == fb, f"other files are written in the environment {name} "
              f"{env}: {fb} instead of {fa}")
    for f in fa:
        if not f.endswith(".sofa"):
            continue
        x, y = (rawnc.Raw(os.path.join(d, f)) for d in (bdir, work))
        ctx.check(x.dims == y.dims and x.attrs == y.attrs and
                  set(x.vars) == set(y.vars), f"another file in {name}")
        for n in x.vars:
            p, q = x.vars[n], y.vars[n]
            ctx.check(p.dims == q.dims and p.dtype == q.dtype and
                      p.attrs == q.attrs and
                      p.data.tobytes() == q.data.tobytes(),
                      f"{n} is written in another way in {name}")
        ctx.count("files_compared")


def difference(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return {k: (x.get(k), y.get(k)) for k in set(x) | set(y)
                if x.get(k) != y.get(k)}
    return ""


def compare(ctx, mods, envs):
    mp = ctx.path("models.pickle")
    with open(mp, "wb") as f:
        pickle.dump(mods, f)
    base, bdir = execute(ctx, "base", {}, mp)
    err = [r for r in base if r[1] == "error"]
    if err:
        raise RuntimeError(err[0][2])
    if os.path.abspath(dict((r[0], r[2]) for r in base)["sofar"]) != \
            os.path.abspath(os.path.join(ctx.env.pkg, "__init__.py")):
        raise RuntimeError("wrong package")
    for i, (kind, env) in enumerate(envs):
        rows, work = execute(ctx, f"{kind}{i}", env, mp)
        judge(ctx, kind, env, base, bdir, rows, work)
        ctx.count("env_" + kind)
    ctx.sample = {"environments": [str(e) for e in envs],
                  "objects": [gen.describe(m) for m, _ in mods],
                  "results": len(base)}


def case(ctx):
    rng = ctx.rng
    n = 4 if ctx.tier == "quick" else 8
    picked = rng.sample(sorted(ENVS), 4 if ctx.tier == "quick" else 6)
    compare(ctx, models(ctx, n), [(k, rng.choice(ENVS[k])) for k in picked])


def every_environment(half):
    def run(ctx):
        envs = [(k, e) for k, v in ENVS.items() for e in v]
        compare(ctx, models(ctx, 3), envs[half::4])
    return run


fixed = [every_environment(i) for i in range(4)]
