"""C25 - users are told exactly about outdated, custom and missing data."""
import re

import numpy as np

from vlib import foreign, gen, oracle as O, rawnc
from vlib.harness import call

PROP = "C25"
RULE = ("random objects of all conventions and versions, created in all ways, "
        "written, rewritten in other netCDF layouts and read with all "
        "options; warnings and output are judged by the versions in the "
        "catalogue, by the definition of the convention and by the missing "
        "values in the raw file; distinct by convention, call and notices")
QUICK = (32, 24)
THOROUGH = (400, 170)
REQUIRED = ["outdated", "latest", "preliminary", "stable", "deprecated",
            "not_deprecated", "custom_listed", "no_custom", "missing_data",
            "complete_data", "quiet", "upgraded", "foreign",
            "custom_dimension", "known_dimension"]
# (words of the messages)
COMMON = ("Entry", "contains", "missing", "data", "a", "I")


def told(r, word):
    return [w for w in r.warns if word in w.lower()]


def outdated(ctx, r, conv, what):
    """Writing tells that there is a newer version of the convention."""
    newer = [v for v in ctx.cat.versions(conv.name)
             if float(v) > float(conv.version)]
    w = told(r, "outdated")
    ctx.check(len(w) == bool(newer), f"{what}: {len(w)} warnings about an "
              f"outdated version but newer versions are {newer}",
              warnings=r.warns)
    if newer:
        ctx.check(re.search(r"(?<![\d.])" + re.escape(conv.version) +
                            r"(?!\.?\d)", w[0]) is not None,
                  f"{what}: the warning does not name the version", text=w)
    ctx.count("outdated" if newer else "latest")


def creation(ctx, conv, kw):
    """Creating tells about preliminary and deprecated conventions."""
    if float(conv.version) < 1 and kw.get("verify") and \
            not kw.get("mandatory") and O.issues(
                gen.default_model(conv), ctx.cat, "read")[0]:
        return
    r = call(ctx.sf.Sofa, conv.name, **kw)
    what = f"Sofa({conv.name!r}, {kw})"
    ctx.check(r.exc is None, f"{what} {r!r}")
    early = float(conv.version) < 1
    w = told(r, "preliminary")
    ctx.check(len(w) == early, f"{what}: {len(w)} warnings about a "
              "preliminary version", warnings=r.warns)
    ctx.count("preliminary" if early else "stable")
    verified = kw.get("verify", "auto")
    if verified == "auto":
        verified = not early
    if verified and not kw.get("mandatory"):
        new = ctx.cat.deprecations["GLOBAL:SOFAConventions"].get(conv.name)
        w = told(r, "deprecat")
        ctx.check(len(w) == (new is not None), f"{what}: {len(w)} warnings "
                  "about a deprecated convention", warnings=r.warns)
        if new is not None:
            ctx.check(new in w[0], f"{what}: the warning does not name {new}",
                      text=w)
        ctx.count("deprecated" if new else "not_deprecated")
    ctx.check("custom" not in r.out, f"{what} prints", out=r.out)
    ctx.key("create", conv.stem, sorted(kw.items()))


def adding(ctx, o, what):
    """Adding a variable tells about custom dimensions."""
    rng = ctx.rng
    for i in range(rng.randint(1, 3)):
        text = rng.random() < .3
        dims = "".join(rng.choice(rng.choice(["ERMNCI", "ERMNCI", "ABDFGHJX"]))
                       for _ in range(rng.choice([1, 1, 2, 3])))
        dims = rng.choice([dims, dims.lower(), dims.title()])
        shape = [rng.randint(1, 3) for _ in dims]
        value = np.zeros(shape)
        if text:
            dims += rng.choice("Ss")
            value = np.full(shape, "text")
        r = call(o.add_variable, f"Noted{i}", value,
                 "string" if text else "double", dims)
        what = f"{what}, add_variable with dimensions {dims}"
        ctx.check(r.exc is None, f"{what} {r!r}")
        odd = [d for d in dims.upper() if d not in "ERMNCIS"]
        w = told(r, "custom dimension")
        ctx.check(bool(w) == bool(odd), f"{what}: {len(w)} warnings about "
                  f"custom dimensions but they are {odd}", warnings=r.warns)
        ctx.check(all(dims.upper() in x.upper() for x in w),
                  f"{what}: the warning does not name the dimensions",
                  warnings=w)
        ctx.check(len(w) == len(r.warns) and not r.out.strip(),
                  f"{what}: further warnings or output", out=r.out,
                  warnings=r.warns)
        ctx.count("custom_dimension" if odd else "known_dimension")
        ctx.key("add", bool(odd), text, len(shape))
    if rng.random() < .3:
        r = call(o.add_attribute, "GLOBAL_Noted", "text")
        ctx.check(r.exc is None and not r.warns and not r.out.strip(),
                  f"{what}: add_attribute {r!r} warns or prints",
                  warnings=r.warns)


def reading(ctx, path, m, what):
    rng, sf = ctx.rng, ctx.sf
    raw = rawnc.Raw(path)
    lost = sorted(n for n, v in raw.vars.items() if v.dtype.kind in "f"
                  and v.data.size and (v.data == rawnc.FILL).any())
    todo = [{}, {"verify": False}, {"verify": True}, {"verbose": False},
            {"verbose": True}, {"verify": False, "verbose": False}, None]
    for kw in rng.sample(todo, rng.randint(2, 4)):
        r = call(sf.read_sofa, path, **kw) if kw is not None else \
            call(sf.read_sofa_as_netcdf, path)
        what = f"{what}, read with {kw}"
        ctx.check(r.exc is None, f"{what} {r!r}")
        # missing data
        got = []
        for w in told(r, "missing data"):
            words = re.findall(r"[^\W\d][\w.]*", w)
            got += [n for n in raw.vars for x in words
                    if x in (n, O.pyname(n))]
        got, want = [sorted(n for n in t if n not in COMMON)
                     for t in (got, lost)]
        ctx.check(got == want, f"{what}: warnings about missing data in "
                  f"{got} but it is in {want}", warnings=r.warns)
        ctx.check(len(told(r, "missing data")) == len(lost),
                  f"{what}: number of warnings about missing data",
                  warnings=r.warns, missing=lost)
        ctx.count("missing_data" if lost else "complete_data")
        if kw is None or not kw.get("verbose", True):
            ctx.check(r.out.strip() == "", f"{what} prints", out=r.out)
            ctx.count("quiet")
        else:
            # custom entries
            head, _, tail = r.out.partition("---")
            if m.custom:
                got = re.findall(r"\w+", tail)
                ctx.check("custom" in head and sorted(got) == sorted(m.custom),
                          f"{what}: custom entries listed are {sorted(got)} "
                          f"but they are {sorted(m.custom)}", out=r.out)
            else:
                ctx.check(r.out.strip() == "", f"{what} prints", out=r.out)
            ctx.count("custom_listed" if m.custom else "no_custom")
        early = float(m.conv.version) < 1
        if kw is not None:
            ctx.check(bool(told(r, "preliminary")) == early,
                      f"{what}: warnings about a preliminary version",
                      warnings=r.warns)
        ctx.check(not told(r, "deprecat") and not told(r, "outdated"),
                  f"{what} warns", warnings=r.warns)
        ctx.key("read", m.conv.stem, str(kw), lost, sorted(m.custom))


def case(ctx):
    rng, sf = ctx.rng, ctx.sf
    conv = rng.choice(sorted(ctx.cat.conventions, key=lambda c: c.stem))
    kw = {"version": conv.version}
    if rng.random() < .5:
        kw["verify"] = rng.choice([True, False, "auto"])
    if rng.random() < .5:
        kw["mandatory"] = rng.random() < .5
    creation(ctx, conv, kw)
    g = gen.Gen(ctx)
    m = g.random()
    if m is None or gen.orphans(m):
        return
    o = gen.realise(sf, m, rng)
    ctx.sample = gen.describe(m)
    path = ctx.path("a.sofa")
    r = call(sf.write_sofa, path, o)
    what = f"{m.conv.stem} with {sorted(m.custom)}"
    ctx.check(r.exc is None, f"{what}: write_sofa {r!r}")
    outdated(ctx, r, m.conv, what)
    ctx.check(r.out.strip() == "" and not told(r, "deprecat")
              and not told(r, "missing"), f"{what}: writing "
              "warns or prints", out=r.out, warnings=r.warns)
    ctx.key("write", m.conv.stem)
    if rng.random() < .4:
        new = ctx.path("b.sofa")
        foreign.rewrite(path, new, rng, scalars=rng.random() < .3)
        path = new
        ctx.count("foreign")
    reading(ctx, path, m, what)
    if rng.random() < .5:
        adding(ctx, gen.realise(sf, m, rng), what)
    if rng.random() < .3:
        # an upgraded object is not outdated
        t = call(o.upgrade_convention, None)
        if t.exc is None and t.value:
            t = rng.choice(sorted(t.value))
            u = call(o.upgrade_convention, t, verify=False)
            new = ctx.cat.get(*t.split("_"))
            if u.exc is None and new is not None:
                r = call(sf.write_sofa, ctx.path("u.sofa"), o)
                if r.exc is None:
                    outdated(ctx, r, new, f"{what} upgraded to {t}")
                    ctx.count("upgraded")


def every_convention(ctx):
    for conv in ctx.cat.conventions:
        for v in (None, True, False, "auto"):
            for mand in (None, True, False):
                kw = {"version": conv.version}
                if v is not None:
                    kw["verify"] = v
                if mand is not None:
                    kw["mandatory"] = mand
                creation(ctx, conv, kw)
        if conv.name in ctx.cat.deprecations["GLOBAL:SOFAConventions"]:
            continue
        o = gen.quiet(ctx.sf.Sofa, conv.name, version=conv.version)
        r = call(ctx.sf.write_sofa, ctx.path(conv.stem), o)
        ctx.check(r.exc is None, f"writing {conv.stem} {r!r}")
        outdated(ctx, r, conv, conv.stem)
        r = call(ctx.sf.read_sofa, ctx.path(conv.stem))
        ctx.check(r.exc is None and not r.out.strip()
                  and not told(r, "missing"), f"reading {conv.stem} {r!r}",
                  out=r.out, warnings=r.warns)


def missing_data(ctx):
    """One missing value in each numeric variable."""
    for conv in gen.Gen(ctx).conventions():
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        for n in m.entries:
            if m.meta(n)[0] != "double" or np.size(m.entries[n]) < 2:
                continue
            old = getattr(o, n)
            new = np.ma.masked_array(np.array(old, float), mask=False)
            i = ctx.rng.randrange(new.size)
            new.reshape(-1)[i] = np.ma.masked
            new = np.ma.masked_array(np.array(old, float), mask=np.arange(
                new.size).reshape(new.shape) == i)
            setattr(o, n, new)
            r = call(ctx.sf.write_sofa, ctx.path("m.sofa"), o)
            ctx.check(r.exc is None, f"writing {conv.stem}, {n} masked {r!r}")
            x = m.copy()
            x.entries[n] = new
            reading(ctx, ctx.path("m.sofa"), x, f"{conv.stem}, {n} masked")
            setattr(o, n, old)
            if ctx.rng.random() < .5:
                break


fixed = [every_convention, missing_data]
