"""C26 - the generated documentation describes the catalogue."""
import json
import os
import re
import shutil
import subprocess
import sys

from vlib import cat as C, catgen, install
from vlib.harness import Inconclusive

PROP = "C26"
RULE = ("random catalogues (similar names, many versions, standardized and "
        "deprecated, comments in several languages) installed in random "
        "folders; the script of the documentation is run as a program, by "
        "its path and as a module in different locales, and each page it "
        "writes is compared with the definitions; distinct by convention, "
        "path and way")
QUICK = (32, 6)
THOROUGH = (400, 40)
CATALOGUE = "fixed"
REQUIRED = ["pages", "sections", "rows", "deprecated", "upgrades",
            "replacements", "ways_program", "ways_path", "ways_module",
            "locales"]
SCRIPT = os.path.join("docs", "resources", "conventions.py")
COMMENTS = ["Größe der Öffnung", "angle in °", "naïve “quotes”", "a: b, c;d",
            "with | pipe and *star*", "Δt of the data", "deprecated",
            "Use GeneralFIR_1.0 instead."]


def generate(rng):
    cat = C.fixed() if rng.random() < .15 else catgen.random_catalogue(rng)
    for conv in cat.conventions:
        for e in conv.entries:
            if rng.random() < .1:
                e["comment"] = rng.choice(COMMENTS)
            if rng.random() < .05 and ":SOFA" not in e["name"]:
                e["flags"] = rng.choice([None, "r", "m", "rm", "mr"])
            if rng.random() < .03 and e["type"] == "double":
                e["default"] = rng.choice([[[1, 2], [3, 4]], [0.5, -1e-6],
                                           [[[1]], [[2]]], 1e10])
        conv._api = None
        if rng.random() < .05 and conv.name not in \
                cat.deprecations["GLOBAL:SOFAConventions"]:
            conv.deprecated = not conv.deprecated
    for name in rng.sample(cat.names(), min(2, len(cat.names()))):
        if all(c.deprecated for c in cat.conventions if c.name == name):
            cat.deprecations["GLOBAL:SOFAConventions"].setdefault(
                name, rng.choice(cat.names()))
    return cat


def run(ctx, base, name):
    """Run the script in one of the ways it is used."""
    rng = ctx.rng
    docs = os.path.join(base, "docs")
    shutil.copytree(os.path.join(install.REPO, "docs", "resources"),
                    os.path.join(docs, "resources"),
                    ignore=shutil.ignore_patterns("*.rst", "__pycache__",
                                                  "*.png", "*.jpeg"))
    way = rng.choice(["program", "path", "module"])
    cmd, cwd = {
        "program": (["conventions.py"], os.path.join(docs, "resources")),
        "path": ([os.path.join(base, SCRIPT)], ctx.dir),
        "module": (["-c", "import resources.conventions"], docs)}[way]
    variables = {k: v for k, v in os.environ.items()
                 if k not in ("LC_ALL", "LANG", "PYTHONUTF8", "TZ")}
    variables.update(PYTHONPATH=base, LC_ALL="C.UTF-8", PYTHONHASHSEED=str(
        rng.randint(0, 99)))
    if rng.random() < .3:
        variables.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        ctx.count("locales")
    page = os.path.join(docs, "resources", "conventions.rst")
    if rng.random() < .3:
        # replaces the page of another version
        with open(page, "w") as f:
            f.write("* :ref:`old v1.0 <old_1.0>`\n" * 3000)
    try:
        p = subprocess.run([sys.executable, "-B", *cmd], cwd=cwd,
                           env=variables, capture_output=True, timeout=120)
    except subprocess.TimeoutExpired as e:
        raise Inconclusive("the script took too long") from e
    ctx.check(p.returncode == 0, f"the script fails ({way}, {name})",
              stderr=p.stderr.decode("utf-8", "replace")[-2000:])
    ctx.count("ways_" + way)
    with open(page, "rb") as f:
        raw = f.read()
    try:
        return raw.decode("utf-8"), way
    except UnicodeDecodeError as e:
        ctx.fail(f"the page is no valid text: {e}", path=name)


def words(text):
    return " ".join(text.split())


def page_of(ctx, text, cat, name):
    marks = {c.stem: f".. _{c.stem}:" for c in cat.conventions}
    lines = text.split("\n")
    # table of contents
    refs = re.findall(r"^\* :ref:`([^`<]*?) <([^`>]*)>`$", text, re.M)
    ctx.check(sorted(r[1] for r in refs) == sorted(marks),
              f"the table of contents in {name} lists "
              f"{sorted(r[1] for r in refs)} but the conventions are "
              f"{sorted(marks)}")
    for label, ref in refs:
        c = cat.get(*ref.split("_"))
        ctx.check(c.name in label and c.version in label and
                  ("deprecated" in label) == c.deprecated,
                  f"the table of contents in {name} lists {ref} as {label!r} "
                  f"(deprecated: {c.deprecated})")
    # one section for each convention
    starts = {}
    for stem, mark in marks.items():
        hits = [i for i, x in enumerate(lines) if x.strip() == mark]
        ctx.check(len(hits) == 1, f"{len(hits)} sections for {stem}")
        starts[hits[0]] = stem
    more = [x for x in lines if re.match(r"\.\. _\w+_[\d.]+:", x)
            and x.strip() not in marks.values()]
    ctx.check(not more, "sections for unknown conventions", sections=more)
    heads = [i for i, x in enumerate(lines) if x == "Deprecated"
             and set(lines[i + 1]) == {"-"}]
    old = any(c.deprecated for c in cat.conventions)
    ctx.check(len(heads) == old, f"{len(heads)} headings for deprecated "
              f"conventions in {name}, needed: {old}")
    order = sorted(starts)
    for i, k in zip(order, order[1:] + [len(lines)]):
        conv = cat.get(*starts[i].split("_"))
        ctx.check(bool(heads and i > heads[0]) == conv.deprecated,
                  f"{conv.stem} is listed as deprecated or not but it is "
                  f"deprecated: {conv.deprecated} ({name})")
        section(ctx, "\n".join(lines[i:k]), conv, cat)


def section(ctx, text, conv, cat):
    intro, _, table = text.partition(".. list-table::")
    # (the start of the next part of the page)
    table = table.partition("\nDeprecated\n---")[0]
    ctx.check(f"{conv.name} v{conv.version}" in intro,
              f"the title of {conv.stem} is missing", text=intro)
    comment = conv.json_dict()["GLOBAL:SOFAConventions"]["comment"]
    ctx.check(words(comment) in words(intro),
              f"the purpose of {conv.stem} is missing", text=intro)
    # (the purpose is given at last)
    rest = words(intro)
    i = rest.rindex(words(comment))
    rest = rest[:i] + rest[i + len(words(comment)):]
    told = "deprecated" in rest
    if not conv.deprecated:
        ctx.check(not told, f"{conv.stem} is said to be deprecated",
                  text=intro)
    elif conv.name in cat.upgrade:
        targets = [t for f in cat.upgrade[conv.name]["from_to"]
                   if conv.version in f[0] for t in f[1]]
        got = re.findall(r":ref:`([^`]*?)(?: <([^`>]*)>)?`", rest)
        ctx.check(sorted(g[1] or g[0] for g in got) == sorted(targets),
                  f"{conv.stem} can be upgraded to {targets} but the text is "
                  f"{rest!r}")
        ctx.check(told == bool(targets), f"{conv.stem}: {rest!r}")
        ctx.count("upgrades", bool(targets))
    else:
        new = cat.deprecations["GLOBAL:SOFAConventions"].get(conv.name)
        ctx.check(told == (new is not None) and (new or "") in rest,
                  f"{conv.stem} is replaced by {new} but the text is "
                  f"{rest!r}")
        ctx.count("replacements", new is not None)
    ctx.count("deprecated", conv.deprecated)
    # the table
    rows = [re.split(r"\n     - ?", r) for r in
            re.split(r"\n   \* - ", table)[1:]]
    ctx.check(rows and words(" ".join(rows[0])).startswith("Name (Type)"),
              f"the header of {conv.stem} is missing", text=table[:300])
    want = conv.json_dict()
    ctx.check(len(rows) == len(want) + 1, f"the table of {conv.stem} has "
              f"{len(rows) - 1} rows but {len(want)} entries", table=table)
    for cells, (key, e) in zip(rows[1:], want.items()):
        what = f"{key} of {conv.stem} is documented as {cells}"
        ctx.check(len(cells) == 5, f"{what}: number of cells")
        cells[4] = cells[4].split("\n\n:ref:`")[0]
        cells = [c.strip() for c in cells]
        name = key.replace(":", "_").replace(".", "_")
        ctx.check(cells[0] == f"{name} (*{e['type']}*)", f"{what}: name, type")
        ctx.check(cells[1] == str(e["default"]).strip() or e["type"] ==
                  "double" and numbers(cells[1]) == numbers(str(
                      e["default"])), f"{what} but its default is "
                  f"{e['default']!r}")
        ctx.check(cells[2] == (e["dimensions"] or ""), f"{what} but its "
                  f"dimensions are {e['dimensions']}")
        ctx.check(sorted(re.sub("[, ]", "", cells[3])) ==
                  sorted(e["flags"] or ""), f"{what} but its flags are "
                  f"{e['flags']}")
        ctx.check(words(cells[4]) == words(
            "" if key == "GLOBAL:SOFAConventions" else e["comment"]),
            f"{what} but its comment is {e['comment']!r}")
        ctx.count("rows")
    ctx.count("sections")


def numbers(text):
    return [float(x) for x in re.findall(r"[-+.\w]+", text)]


def case(ctx):
    rng = ctx.rng
    name = catgen.odd_path(rng)
    if rng.random() < .3:
        name = os.path.join(rng.choice(["deprecated", "not deprecated yet"]),
                            name)
    base = os.path.join(ctx.dir, name)
    os.makedirs(base)
    cat = generate(rng)
    install.install(base, cat, csv=False)
    conv = rng.choice(cat.conventions)
    path = os.path.join(
        base, "sofar", "sofa_conventions", "conventions",
        "deprecated" if conv.deprecated else "", conv.stem + ".json")
    with open(path) as f:
        before = json.load(f)
    text, way = run(ctx, base, name)
    ctx.sample = {"path": name, "conventions": [c.stem for c in
                                                cat.conventions]}
    page_of(ctx, text, cat, name)
    with open(path) as f:
        ctx.check(json.load(f) == before, f"{conv.stem}.json was changed")
    ctx.count("pages")
    for c in cat.conventions:
        ctx.key(c.stem, c.deprecated, way, "deprecated" in name)
