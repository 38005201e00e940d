"""C14 - updating makes the local catalogue equal to the official one."""
import os
import re

from vlib import server as W
from vlib.harness import call
from vlib.world import World, others

PROP = "C14"
RULE = ("a simulated server offers random tables in both folders, the local "
        "catalogue is an older, newer, moved, re-spelled or empty version of "
        "it with further local files; update_conventions is called in a "
        "history of releases (new, changed, deprecated, restored and "
        "withdrawn conventions) with and without confirmation, and again; "
        "all local files are compared before and after every call; distinct "
        "by pending changes and answers")
QUICK = (32, 28)
THOROUGH = (400, 300)
CATALOGUE = "fixed"
ODD_PATHS = True
CSV = True
REQUIRED = ["updates", "repeated", "refused", "added", "deprecated",
            "restored", "changed", "excluded", "package_folder"]
ANSWERS = ["n", "", "no", "N", "q", "0", "nope"]


def update(ctx, srv, path, yes, answer=None, kind="abs"):
    tmp = ctx.path("tmp")
    os.makedirs(tmp, exist_ok=True)
    kw = {"assume_yes": True} if yes else ctx.rng.choice(
        [{}, {"assume_yes": False}])
    if path is not None:
        kw["conventions_path"] = os.path.relpath(path) if kind == "rel" \
            else path + os.sep if kind == "slash" else path
    with srv.online(answer, tmp) as typed:
        r = call(ctx.sf.update_conventions, **kw)
    ctx.check(r.exc is None, f"update_conventions {r!r}")
    ctx.check(not os.listdir(tmp),
              f"temporary files are left: {os.listdir(tmp)}")
    return r, typed.asked


def named(out, stem):
    return re.search(r"(?<![\w.-])" + re.escape(stem) + r"(?![\w-]|\.\d)",
                     out) is not None


def case(ctx):
    rng = ctx.rng
    w = World(rng)
    path = ctx.path(rng.choice(["conv", "a b", "c[1]", "x.y", "con_v*"]))
    kind = rng.choice(["abs", "abs", "rel", "slash"])
    if rng.random() < .8:
        os.mkdir(path)
        if rng.random() < .9:
            w.install(path)
    history(ctx, w, path, kind, rng.randint(1, 4))


def history(ctx, w, path, kind, rounds):
    rng = ctx.rng
    folder = path if path is not None else os.path.join(
        ctx.env.pkg, "sofa_conventions", "conventions")
    for i in range(rounds):
        if i:
            w.evolve()
        before = W.snapshot(folder)
        pending = w.pending(before)
        plan = [rng.random() < .4, rng.random() < .5, rng.random() < .7]
        if plan[0]:
            # the user does not agree
            a = rng.choice(ANSWERS)
            r, asked = update(ctx, w.server(), path, False, a, kind)
            now = W.snapshot(folder)
            p = others(before, now)
            ctx.check(p is None, f"answering {a!r}: {p}")
            if pending:
                ctx.check(asked, "there was no question before the update",
                          pending=sorted(pending))
                ctx.count("refused")
        # the user agrees
        r, _ = update(ctx, w.server(), path, plan[1], "y", kind)
        after = W.snapshot(folder)
        p = w.problem(before, after)
        ctx.check(p is None, f"after updating: {p}", output=r.out)
        for s in pending:
            ctx.check(named(r.out, s), f"{s} is updated without notice",
                      output=r.out)
        if not pending:
            ctx.check("up to date" in r.out, "nothing has to be updated but "
                      f"the output is {r.out!r}")
        for s in pending:
            here = "" if s in w.std else "deprecated/"
            away = "deprecated/" if s in w.std else ""
            ctx.count("restored" if away + s + ".csv" in before and not here
                      else "deprecated" if away + s + ".csv" in before
                      else "changed" if here + s + ".csv" in before
                      else "added")
        ctx.count("updates")
        ctx.count("excluded", sum(s.startswith(("General_", "GeneralString_"))
                                  for s in w.std))
        # once more
        if plan[2]:
            if rng.random() < .3:
                # (only spelled in another way)
                for s in sorted(w.raw):
                    if rng.random() < .5:
                        del w.raw[s]
                w.respell()
            r, asked = update(ctx, w.server(), path, rng.random() < .5,
                              rng.choice(["n", "y"]), kind)
            again = W.snapshot(folder)
            if not w.pending(after):
                ctx.check("up to date" in r.out, "repeated update does not "
                          f"report that all is up to date: {r.out!r}")
                p = others(after, again)
                ctx.check(p is None, f"repeated update: {p}")
                ctx.count("repeated")
        ctx.key(sorted(pending), plan, rounds)
    ctx.sample = {"offered": sorted(w.std), "deprecated": sorted(w.dep),
                  "rounds": rounds}


def package_folder(ctx):
    """Without path the conventions of the package are updated."""
    rng = ctx.rng
    w = World(rng)
    base = os.path.join(ctx.env.pkg, "sofa_conventions")
    w.install(os.path.join(base, "conventions"))
    rules = W.snapshot(os.path.join(base, "rules"))
    history(ctx, w, None, "abs", 3)
    ctx.check(W.snapshot(os.path.join(base, "rules")) == rules,
              "the rules were changed")
    ctx.count("package_folder")


fixed = [package_folder] * 3
