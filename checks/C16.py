"""C16 - compiled conventions mean the same as their source tables."""
import copy
import json
import os

from checks.C13 import expected
from vlib import server as W, tables as T
from vlib.harness import call

PROP = "C16"
RULE = ("random convention tables (random rows in random order; numbers, "
        "flat, nested and three-dimensional defaults; all texts and comments; "
        "all line endings, trailing tabs, white space, missing comments) and "
        "the tables of whole catalogues in random spelling are offered by a "
        "simulated server and compiled by update_conventions; every compiled "
        "definition is compared with the rows, objects created from it with "
        "the definition; distinct by content of the table")
QUICK = (40, 40)
THOROUGH = (600, 400)
CATALOGUE = "random"
ODD_PATHS = True
CSV = True
REQUIRED = ["tables", "objects", "rows"]


def update(ctx, srv, path=None):
    tmp = ctx.path("tmp")
    os.makedirs(tmp, exist_ok=True)
    kw = {} if path is None else {"conventions_path": path}
    with srv.online(tmp=tmp):
        r = call(ctx.sf.update_conventions, assume_yes=True, **kw)
    if r.exc is not None:
        # (the tables are well formed and there are no faults)
        bad = {k: v for k, v in srv.std.items()}
        bad.update(srv.dep)
        line = next((x for k, v in bad.items() for x in v.split(b"\n")
                     if k in str(r.exc)), b"")
        ctx.fail(f"update_conventions {r!r}", table=str(line))
    return r


def compiled(folder, stem):
    try:
        with open(os.path.join(folder, stem + ".json")) as f:
            return json.load(f)
    except (OSError, ValueError) as e:
        return e


def random_tables(ctx):
    rng = ctx.rng
    std, dep, rows = {}, {}, {}
    for i in range(rng.randint(2, 6)):
        name = rng.choice(["GeneralTF", "Foo", "MyFIR-E", "A", "Data"])
        stem = f"{name}_{rng.choice(['1.0', '0.2', '2.1', '10.0'])}"
        if stem in rows:
            continue
        rows[stem] = T.random_rows(rng, name, stem.split("_")[1])
        (std if rng.random() < .7 else dep)[stem + ".csv"] = T.render(
            rng, rows[stem])
    base = ctx.path(rng.choice(["conv", "a b", "c[1]", "x.y"]))
    update(ctx, W.Server(std, dep, rng, rng.randrange(12)), base)
    for stem, r in rows.items():
        folder = base if stem + ".csv" in std else os.path.join(
            base, "deprecated")
        got = compiled(folder, stem)
        p = T.problem(r, got)
        ctx.check(p is None, f"{stem}: {p}",
                  table=str((std.get(stem + ".csv")
                             or dep.get(stem + ".csv"))[:1500]))
        ctx.count("tables")
        ctx.count("rows", len(r))
        ctx.key([(e["name"], repr(e["default"]), e["comment"]) for e in r])
    ctx.sample = {"tables": {k: str(v[:300]) for k, v in std.items()}}


def vary(rng, conv):
    """Another release of a convention."""
    conv = copy.deepcopy(conv)
    for e in conv.entries:
        locked = e["name"].split(":")[-1] in (
            "SOFAConventions", "SOFAConventionsVersion", "Conventions",
            "Version", "DataType", "APIName", "APIVersion")
        x = rng.random()
        if x < .25:
            e["comment"] = rng.choice(T.COMMENTS)
        elif x < .35 and e["type"] == "attribute" and not locked:
            e["default"] = rng.choice(T.TEXTS)
        elif x < .4 and e["type"] == "double" and not isinstance(
                e["default"], list):
            e["default"] = rng.choice([1, 2.5, -3, 0.09, 7])
        elif x < .5 and not locked and "r" not in (e["flags"] or ""):
            e["flags"] = None if e["flags"] else e["flags"]
    conv._api = None
    return conv


def catalogue(ctx):
    """All conventions of the installed catalogue in another spelling."""
    rng, cat = ctx.rng, ctx.cat
    std, dep = {}, {}
    for i, c in enumerate(cat.conventions):
        if c.name not in ("General", "GeneralString") and rng.random() < .5:
            # (these are excluded from updates)
            cat.conventions[i] = c = vary(rng, c)
        rows = list(c.entries)
        if rng.random() < .5:
            # any order
            rng.shuffle(rows)
        (dep if c.deprecated else std)[c.stem + ".csv"] = T.render(rng, rows)
    update(ctx, W.Server(std, dep, rng, rng.randrange(12)))
    base = os.path.join(ctx.env.pkg, "sofa_conventions", "conventions")
    for c in cat.conventions:
        folder = os.path.join(base, "deprecated") if c.deprecated else base
        p = T.problem(c.entries, compiled(folder, c.stem))
        ctx.check(p is None, f"{c.stem}: {p}")
        ctx.count("tables")
    for c in rng.sample(cat.conventions, min(5, len(cat.conventions))):
        mandatory = rng.random() < .3
        r = call(ctx.sf.Sofa, c.name, mandatory=mandatory,
                 version=c.version, verify=False)
        ctx.check(r.exc is None, f"Sofa({c.stem}) {r!r}")
        expected(ctx, r.value, c, mandatory)
        ctx.count("objects")
        ctx.key(c.stem, mandatory, ctx.idx, ctx.batch)


def case(ctx):
    random_tables(ctx)
    if ctx.idx % 4 == 0:
        catalogue(ctx)


def shipped(ctx):
    """The fixed catalogue in the plain spelling and back into objects."""
    std = {c.stem + ".csv": T.render(ctx.rng, c.entries, True)
           for c in ctx.cat.conventions if not c.deprecated}
    dep = {c.stem + ".csv": T.render(ctx.rng, c.entries, True)
           for c in ctx.cat.conventions if c.deprecated}
    base = ctx.path("conv")
    update(ctx, W.Server(std, dep), base)
    for c in ctx.cat.conventions:
        folder = os.path.join(base, "deprecated") if c.deprecated else base
        p = T.problem(c.entries, compiled(folder, c.stem))
        ctx.check(p is None, f"{c.stem}: {p}")
        ctx.count("tables")


fixed = [shipped]
