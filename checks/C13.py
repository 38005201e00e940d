"""C13 - the catalogue is looked up completely and correctly."""
import copy
import os
import platform
import re
import shutil
from datetime import datetime, timedelta

from vlib import cat as C, catgen, gen, oracle as O
from vlib.harness import call

PROP = "C13"
RULE = ("random catalogues (similar names, versions from 0.1 to 11.0, "
        "standardized and deprecated) installed in random folders whose names "
        "contain underscores, dots, brackets and wildcards; every convention "
        "and version is created in all ways and compared with its definition, "
        "unknown names and versions are tried, the list of conventions is "
        "compared with the catalogue; distinct by path, convention and way")
QUICK = (48, 14)
THOROUGH = (600, 60)
CATALOGUE = "random"
ODD_PATHS = True
CSV = True
REQUIRED = ["latest", "exact", "mandatory_only", "unknown_names",
            "unknown_versions", "lists", "several_versions", "deprecated",
            "provenance", "changed_catalogues", "changed_remove",
            "changed_add", "changed_default"]


def provenance(ctx, o, conv):
    """The entries that tell how and when the object was created."""
    c = O.content(o)
    t0 = getattr(ctx, "created", None)
    now = datetime.now()
    date = c.get("GLOBAL_DateCreated")
    ctx.check(date == c.get("GLOBAL_DateModified"), f"a new {conv.stem} has "
              f"the dates {date!r} and {c.get('GLOBAL_DateModified')!r}")
    if date is not None:
        try:
            when = datetime.strptime(date, "%Y-%m-%d %H:%M:%S")
        except (ValueError, TypeError):
            when = None
        ctx.check(when is not None and (t0 or now - timedelta(minutes=10))
                  .replace(microsecond=0) <= when <= now,
                  f"{conv.stem} was created between {t0} and {now} but its "
                  f"date is {date!r}")
    for n, v in (("APIVersion", ctx.sf.version()),
                 ("ApplicationName", "Python")):
        ctx.check(c.get("GLOBAL_" + n, v) == v,
                  f"GLOBAL_{n} of {conv.stem} is {c.get('GLOBAL_' + n)!r}")
    ctx.check("sofar" in c.get("GLOBAL_APIName", "sofar"), "GLOBAL_APIName of "
              f"{conv.stem} is {c.get('GLOBAL_APIName')!r}")
    ctx.check(platform.python_version() in c.get(
        "GLOBAL_ApplicationVersion", platform.python_version()),
        f"GLOBAL_ApplicationVersion of {conv.stem} is "
        f"{c.get('GLOBAL_ApplicationVersion')!r}")
    ctx.count("provenance")


def expected(ctx, o, conv, mandatory):
    provenance(ctx, o, conv)
    m = gen.default_model(conv, mandatory)
    now = O.content(o)
    api = conv.api()
    for n in gen.DYNAMIC:
        m.entries[n] = now.get(n)
        if n not in api or mandatory and not O.mandatory(api[n]["flags"]):
            # (set only if it is part of the convention)
            if n not in now or n in api and not isinstance(now[n], str):
                del m.entries[n]
    d = O.diff_semantic(m, now)
    ctx.check(not d, f"{conv.stem} differs from its definition: {d[:4]}")
    for n, v in now.items():
        t = m.meta(n)[0]
        ctx.check(O.type_ok(v, t), f"{n} of {conv.stem} is {v!r} but must "
                  f"be {t}")
    ctx.check(bool(o.protected), f"{conv.stem} is not protected")


def best(cat, name):
    return max((c for c in cat.conventions if c.name == name),
               key=lambda c: [int(x) for x in c.version.split(".")])


def create(ctx, *args, **kw):
    ctx.created = datetime.now()
    r = call(ctx.sf.Sofa, *args, **kw)
    ctx.check(r.exc is None, f"Sofa{args} {kw} {r!r} in {ctx.env.base}")
    return r.value


def case(ctx):
    rng, cat = ctx.rng, ctx.cat
    conv = rng.choice(cat.conventions)
    mandatory = rng.choice([False, False, True])
    verify = rng.choice([{}, {"verify": False}, {"verify": "auto"}])
    top = best(cat, conv.name)
    args, kw = rng.choice([
        ((conv.name,), {}), ((), {"convention": conv.name}),
        ((conv.name,), {"version": "latest"})])
    if mandatory:
        kw = dict(kw, mandatory=True)
    o = create(ctx, *args, **kw, **verify)
    expected(ctx, o, top, mandatory)
    ctx.count("latest")
    ctx.count("several_versions", int(sum(
        c.name == conv.name for c in cat.conventions) > 1))
    o = create(ctx, conv.name, mandatory, conv.version, **verify)
    expected(ctx, o, conv, mandatory)
    ctx.count("exact")
    ctx.count("mandatory_only", int(mandatory))
    ctx.count("deprecated", int(conv.deprecated))
    # ---- unknown names
    names = {c.name for c in cat.conventions}
    n = rng.choice(sorted(names))
    pool = [n[:-1], n + "x", n.lower(), n.upper(), n + "_", n + "_1.0",
            conv.stem, conv.stem + ".json", "", "*", n[:2] + "*", "?" + n[1:],
            "deprecated/" + n, "../conventions/" + n, n[1:], " " + n,
            n + " ", "json", "conventions", "Foo2", "General*", "latest",
            "[" + n[0] + "]" + n[1:], "VERSION", "deprecated"]
    for bad in rng.sample(pool, 6):
        if bad in names:
            continue
        r = call(ctx.sf.Sofa, bad)
        ctx.check(isinstance(r.exc, ValueError), f"Sofa({bad!r}) {r!r}",
                  names=sorted(names))
        ctx.count("unknown_names")
    # ---- unknown versions
    have = {c.version for c in cat.conventions if c.name == conv.name}
    others = [c.version for c in cat.conventions]
    pool = others + ["1", "1.00", "01.0", "99.0", "", "Latest", "1.0.json",
                     "v1.0", "1.0 ", "-1.0", "1.*", "*", "10", "0", "2",
                     "nan", "inf", "1.0_1.0", conv.version + "0"]
    for bad in rng.sample(pool, min(6, len(pool))):
        if bad in have:
            continue
        r = call(ctx.sf.Sofa, conv.name, version=bad, verify=False)
        ctx.check(isinstance(r.exc, ValueError),
                  f"Sofa({conv.name!r}, version={bad!r}) {r!r}",
                  versions=sorted(have))
        ctx.count("unknown_versions")
    lists(ctx)
    if rng.random() < .35:
        changed(ctx)
    ctx.sample = {"path": ctx.env.base[-60:], "convention": conv.stem,
                  "catalogue": [c.stem for c in cat.conventions][:12]}
    ctx.key(ctx.batch, conv.stem, mandatory)


def lists(ctx):
    sf, cat = ctx.sf, ctx.cat
    r = call(sf.list_conventions)
    ctx.check(r.exc is None, f"list_conventions {r!r}")
    got = re.findall(r"^\W*([^\s(]+) +\(?[Vv]ersion ([\d.]+)\)?", r.out, re.M)
    want = sorted((c.name, c.version) for c in cat.conventions)
    ctx.check(sorted(got) == want,
              f"list_conventions shows {sorted(got)} but the catalogue "
              f"contains {want}", path=ctx.env.base)
    r = call(sf.version)
    ctx.check(r.exc is None and isinstance(r.value, str) and re.search(
        r"(?<![\d.])" + re.escape(cat.version) + r"(?![\d.])",
        r.value.replace("sofar v" + sf.__version__, "")),
        f"version {r!r} but the catalogue has version {cat.version}")
    ctx.count("lists")


def ambiguous(versions):
    """1.25 is older than 1.5 and newer."""
    return sorted(versions, key=float) != sorted(
        versions, key=lambda v: [int(x) for x in v.split(".")])


def changed(ctx):
    """The catalogue is changed while it is used (like by an update)."""
    rng, old = ctx.rng, ctx.cat
    dest = os.path.join(ctx.env.pkg, "sofa_conventions")
    base = os.path.join(dest, "conventions")
    csv = any(f.endswith(".csv") for f in os.listdir(base))
    new = copy.deepcopy(old)
    for _ in range(rng.randint(1, 3)):
        conv = rng.choice(new.conventions)
        kind = rng.choice(["remove", "add", "add", "default", "entry",
                           "deprecate"])
        if kind == "remove" and len(new.conventions) > 1:
            have = new.versions(conv.name)
            have.remove(conv.version)
            if ambiguous(have):
                continue
            new.conventions.remove(conv)
        elif kind == "add":
            conv = copy.deepcopy(conv)
            name, version = rng.choice([
                (conv.name, rng.choice(catgen.VERSIONS)),
                (conv.name, "%d.0" % (1 + float(best(new, conv.name).version))),
                (conv.name + rng.choice(["B", "2"]), "1.0")])
            have = new.versions(name)
            if version in have or ambiguous(have + [version]):
                continue
            conv.name, conv.version, conv._api = name, version, None
            for e in conv.entries:
                if e["name"] == "GLOBAL:SOFAConventions":
                    e["default"] = name
                if e["name"] == "GLOBAL:SOFAConventionsVersion":
                    e["default"] = version
            new.conventions.append(conv)
        elif kind == "default":
            e = rng.choice([e for e in conv.entries if e["name"] in (
                "GLOBAL:Title", "GLOBAL:Comment", "GLOBAL:History",
                "GLOBAL:Organization")] or conv.entries[:1])
            if e["name"] != "GLOBAL:Conventions":
                e["default"] = rng.choice(["changed", "also changed"])
        elif kind == "entry":
            if "GLOBAL_Laboratory2" in conv.api():
                continue
            conv.entries.append(C.Entry("GLOBAL:Laboratory2", "here",
                                        rng.choice([None, "m"])))
        else:
            conv.deprecated = not conv.deprecated
        conv._api = None
        ctx.count("changed_" + kind)

    def install(cat):
        shutil.rmtree(base)
        cat.write(dest, csv)
        ctx.cat = cat

    install(new)
    try:
        lists(ctx)
        for conv in rng.sample(new.conventions, min(3, len(
                new.conventions))) + new.conventions[-1:]:
            expected(ctx, create(ctx, conv.name), best(new, conv.name), False)
            expected(ctx, create(ctx, conv.name, version=conv.version,
                                 verify=False), conv, False)
        for conv in old.conventions:
            if not new.get(conv.name, conv.version):
                r = call(ctx.sf.Sofa, conv.name, version=conv.version)
                ctx.check(isinstance(r.exc, ValueError), f"{conv.stem} is "
                          f"not part of the catalogue any more but {r!r}")
    finally:
        install(old)
    lists(ctx)
    expected(ctx, create(ctx, conv.name), best(old, conv.name), False) \
        if any(c.name == conv.name for c in old.conventions) else None
    ctx.count("changed_catalogues")


def whole_catalogue(ctx):
    """Every convention and version of the fixed catalogue."""
    for conv in ctx.cat.conventions:
        for mandatory in (False, True):
            for kw in ({}, {"verify": False}, {"verify": True}):
                o = create(ctx, conv.name, mandatory=mandatory,
                           version=conv.version, **kw)
                expected(ctx, o, conv, mandatory)
            ctx.key(conv.stem, mandatory)
        expected(ctx, create(ctx, conv.name), best(ctx.cat, conv.name), False)
    lists(ctx)
    # other files in the folders
    base = os.path.join(ctx.env.pkg, "sofa_conventions", "conventions")
    for d in (base, os.path.join(base, "deprecated")):
        for f in ("README.md", ".DS_Store", "notes.txt", "GeneralTF_7.0.csv"):
            with open(os.path.join(d, f), "w") as fid:
                fid.write("x")
    lists(ctx)
    expected(ctx, create(ctx, "GeneralTF"), best(ctx.cat, "GeneralTF"), False)


fixed = [whole_catalogue]
