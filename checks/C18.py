"""C18 - reading accepts exactly valid files and shows their content."""
import os

import numpy as np

from vlib import foreign, gen, oracle as O, rawnc
from vlib.harness import call

PROP = "C18"
RULE = ("files written by sofar, changed by 0 to 4 random edits of the raw "
        "netCDF content (entries removed, renamed, added, resized, other "
        "types, texts, rules, conventions); the verdict and content of "
        "read_sofa with all options, and the content of read_sofa_as_netcdf "
        "are judged by a model derived from the raw file; the object is "
        "repaired, written and read; distinct by convention, edits and "
        "verdict")
QUICK = (32, 20)
THOROUGH = (400, 250)
REQUIRED = ["accepted", "rejected", "unknown_convention", "missing_names",
            "preliminary", "repaired", "netcdf_reads", "edits", "untouched",
            "err_missing", "err_type", "err_shape", "err_rule", "err_name",
            "foreign_storage", "masked"]


def same(value, ref, type_, dims):
    """Value that was read against the value in the file."""
    if type_ != "attribute":
        return O.same_value(ref, value, type_, dims) or \
            loose(value, ref, type_)
    if isinstance(ref, str):
        return isinstance(value, str) and str(value) == ref
    # (attributes that are no text)
    a, b = np.asarray(value).reshape(-1), np.asarray(ref).reshape(-1)
    return a.shape == b.shape and bool(np.all(a == b)) and \
        a.dtype.kind == b.dtype.kind


def loose(value, ref, type_):
    """Data that does not fit the type of its entry."""
    a, b = np.ma.asarray(value), np.ma.asarray(ref)
    ma, mb = np.ma.getmaskarray(a).reshape(-1), \
        np.ma.getmaskarray(b).reshape(-1)
    a, b = np.ma.getdata(a), np.ma.getdata(b)
    if O.trim(a.shape) != O.trim(b.shape) or a.dtype.kind != b.dtype.kind:
        return False
    a, b = a.reshape(-1), b.reshape(-1)
    return np.array_equal(ma, mb) and bool(np.all(
        (a == b) | ma | ((a != a) & (b != b))))


def diff(o, m):
    got = O.content(o)
    out = []
    for k, v in m.entries.items():
        if k not in got:
            out.append(f"{k} is missing")
            continue
        t, d, _ = m.meta(k)
        if not same(got[k], v, t, d):
            out.append(f"{k} is {O.short(got[k])} but must be {O.short(v)}")
    out += [f"{k} was invented ({O.short(got[k])})" for k in got
            if k not in m.entries]
    return out


def case(ctx):
    rng, sf, cat = ctx.rng, ctx.sf, ctx.cat
    g = gen.Gen(ctx)
    m0 = g.random()
    if m0 is None or gen.orphans(m0):
        return
    o = gen.realise(sf, m0, rng)
    path = ctx.path("a.sofa")
    r = call(sf.write_sofa, path, o)
    ctx.check(r.exc is None, f"write_sofa {r!r}", model=gen.describe(m0))
    if rng.random() < .3:
        new = ctx.path("b.sofa")
        foreign.rewrite(path, new, rng, scalars=rng.random() < .3)
        path = new
        ctx.count("foreign_storage")
    raw = rawnc.Raw(path)
    d = foreign.Damage(rng, ctx.np, cat, raw, m0.conv)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        d.apply()
    for v in raw.vars.values():
        v.attrs.pop("_FillValue", None)
    if d.done:
        path = ctx.path("c.sofa")
        foreign.dump(raw, path)
        raw = rawnc.Raw(path)
        ctx.count("edits", len(d.done))
    else:
        ctx.count("untouched")
    ctx.sample = {"model": gen.describe(m0), "edits": d.done}
    if any(v.data.size and (v.data == rawnc.FILL).any()
           for v in raw.vars.values() if v.dtype.kind == "f"):
        ctx.count("masked")
    judge(ctx, path, raw, d.done)
    as_netcdf(ctx, path, raw, d.done, m0)


def judge(ctx, path, raw, edits):
    rng, sf, cat = ctx.rng, ctx.sf, ctx.cat
    name = raw.attrs.get("SOFAConventions")
    version = raw.attrs.get("SOFAConventionsVersion")
    conv = cat.get(name, version) if isinstance(name, str) else None
    with open(path, "rb") as f:
        before = f.read()
    todo = [{}, {"verify": True}, {"verify": False}, {"verify": "auto"}]
    rng.shuffle(todo)
    for kw in todo[:rng.randint(2, 4)]:
        if rng.random() < .5:
            kw["verbose"] = rng.random() < .5
        r = call(sf.read_sofa, path, **kw)
        what = f"read_sofa({kw}) of a file with {edits}"
        with open(path, "rb") as f:
            ctx.check(f.read() == before, f"{what} changed the file")
        if conv is None:
            ctx.check(r.exc is not None, f"{what} {r!r}", name=name,
                      version=version)
            ctx.count("missing_names" if name is None or version is None
                      else "unknown_convention")
            ctx.key("unknown", name, version)
            continue
        m = foreign.model(raw, conv)
        err, warn = O.issues(m, cat, "read")
        verify = kw.get("verify", "auto")
        if verify == "auto":
            verify = float(conv.version) >= 1
            ctx.count("preliminary", int(not verify))
        bad = bool(err) and verify
        ctx.check((r.exc is not None) == bad,
                  f"{what} {r!r}, but the file "
                  + (f"breaks {err[:4]}" if err else "is valid"),
                  model=gen.describe(m))
        for f in {e[0] for e in err}:
            ctx.count("err_" + f)
        ctx.key(conv.stem, [e.split()[0] for e in edits],
                sorted({e[:2] for e in err}), verify)
        if r.exc is not None:
            ctx.check(isinstance(r.exc, ValueError), f"{what} {r!r}")
            ctx.count("rejected")
            continue
        ctx.count("accepted")
        x = diff(r.value, m)
        ctx.check(not x, f"{what}: {x[:4]}", model=gen.describe(m))
        quiet = kw.get("verbose", True) is False
        if m.custom and not quiet:
            for n in m.custom:
                ctx.check(n in r.out, f"{what} does not list {n}", out=r.out)
        if quiet:
            ctx.check("custom" not in r.out, f"{what} prints", out=r.out)
        # the object can be verified, the verdict stays
        missing = any(e[0] == "missing" for e in err)
        v = call(r.value.verify, mode="read")
        ctx.check((v.exc is not None) == bool(err),
                  f"verify after {what} {v!r}", issues=err[:4])
        if not missing:
            x = diff(r.value, m)
            ctx.check(not x, f"verify after {what}: {x[:4]}")


def as_netcdf(ctx, path, raw, edits, m0):
    rng, sf = ctx.rng, ctx.sf
    what = f"read_sofa_as_netcdf of a file with {edits}"
    r = call(sf.read_sofa_as_netcdf, path)
    ctx.check(r.exc is None, f"{what} {r!r}")
    ref = foreign.model(raw, m0.conv)
    x = diff(r.value, ref)
    ctx.check(not x, f"{what}: {x[:4]}")
    ctx.count("netcdf_reads")
    if rng.random() < .6:
        repair(ctx, r.value, m0, what, ref)


def repair(ctx, o, m, what, ref):
    """Give the object the content of a valid one and use it."""
    rng, sf, api = ctx.rng, ctx.sf, m.conv.api()
    # custom data is defined by the file
    wrong = [n for n in m.custom if ref.custom.get(n) != m.custom[n]]
    wrong += [n for n in m.custom if any(n.startswith(x + "_")
                                         for x in wrong)]
    o.protected = False
    have = O.content(o)
    todo = list(have)
    rng.shuffle(todo)
    # attributes before their variables
    todo.sort(key=lambda n: "_" not in n.replace("Data_", ""))
    for n in todo:
        if n not in m.entries or n in wrong:
            r = call(delattr, o, n)
            ctx.check(r.exc is None, f"after {what}: deleting {n} {r!r}")
    names = ["GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"]
    missing = []
    for n in m.entries:
        if n in have and n not in wrong:
            t, d, _ = m.meta(n)
            if rng.random() < .5 or not same(have[n], m.entries[n], t, d) \
                    or not O.type_ok(have[n], t):
                r = call(setattr, o, n, O.cp(m.entries[n]))
                ctx.check(r.exc is None, f"after {what}: setting {n} {r!r}")
        else:
            missing.append(n)
    o.protected = True
    if any(n in missing for n in names):
        # (can only be added like custom data)
        for n in names:
            if n in missing:
                r = call(o.add_attribute, n, m.entries[n])
                if r.exc is not None:
                    ctx.count("left_names")
                    return
    r = call(o.add_missing, True, True, False)
    ctx.check(r.exc is None, f"add_missing after {what} {r!r}")
    for n in list(O.content(o)):
        if n not in m.entries:
            r = call(o.delete, n)
            ctx.check(r.exc is None, f"deleting {n} after {what} {r!r}")
    o.protected = False
    for n in missing:
        if n in api:
            gen.put(o, n, O.cp(m.entries[n]))
    o.protected = True
    for n in sorted(missing, key=lambda n: n in m.custom and
                    m.custom[n][0] == "attribute"):
        if n in m.custom:
            t, d = m.custom[n]
            r = call(o.add_attribute, n, m.entries[n]) if t == "attribute" \
                else call(o.add_variable, n, O.cp(m.entries[n]), t, d)
            ctx.check(r.exc is None, f"adding {n} after {what} {r!r}")
    x = O.diff_semantic(m, O.content(o))
    ctx.check(not x, f"repaired after {what}: {x[:3]}")
    r = call(o.verify)
    ctx.check(r.exc is None, f"verify of the object repaired after {what} "
              f"{r!r}", model=gen.describe(m))
    path = ctx.path("repaired.sofa")
    r = call(sf.write_sofa, path, o)
    ctx.check(r.exc is None, f"writing the object repaired after {what} "
              f"{r!r}")
    r = call(sf.read_sofa, path)
    ctx.check(r.exc is None, f"reading the object repaired after {what} "
              f"{r!r}")
    x = O.diff_semantic(m, O.content(r.value))
    ctx.check(not x, f"file repaired after {what}: {x[:3]}")
    bad = rawnc.layout_problems(rawnc.Raw(path), m)
    ctx.check(not bad, f"file repaired after {what}: {bad[:3]}")
    os.remove(path)
    ctx.count("repaired")


def default_files(ctx, n):
    """Raw content of files with default objects of some conventions."""
    convs = gen.Gen(ctx).conventions()
    for conv in ctx.rng.sample(convs, min(n, len(convs))):
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        path = ctx.path(f"{conv.stem}.sofa")
        r = call(ctx.sf.write_sofa, path, o)
        ctx.check(r.exc is None, f"writing {conv.stem} {r!r}")
        yield conv, m, path


def one_missing(ctx):
    """Files without one of the entries: first, last and others."""
    rng = ctx.rng
    for conv, m, path in default_files(ctx, 8):
        names = [n for n in m.entries if "SOFAConventions" not in n]
        gone = {names[0], names[-1], *rng.sample(names, min(7, len(names)))}
        for n in sorted(gone):
            raw = rawnc.Raw(path)
            t = m.meta(n)[0]
            if n.startswith("GLOBAL_"):
                del raw.attrs[n[7:]]
            elif t == "attribute":
                v, a = n.rsplit("_", 1)
                del raw.vars[rawnc.ncname(v)].attrs[a]
            else:
                del raw.vars[rawnc.ncname(n)]
            new = ctx.path("missing.sofa")
            foreign.dump(raw, new)
            raw = rawnc.Raw(new)
            edits = [f"without {n}"]
            judge(ctx, new, raw, edits)
            ref = foreign.model(raw, conv)
            for fn, kw in ((ctx.sf.read_sofa, {"verify": False}),
                           (ctx.sf.read_sofa_as_netcdf, {})):
                r = call(fn, new, **kw)
                ctx.check(r.exc is None, f"{fn.__name__} {kw} of a file of "
                          f"{conv.stem} {edits} {r!r}")
                x = diff(r.value, ref)
                ctx.check(not x, f"{fn.__name__} {kw} of a file of "
                          f"{conv.stem} {edits}: {x[:4]}")


def upper_case(ctx):
    """Units in other cases can be read but not written."""
    rng = ctx.rng
    for conv, m, path in default_files(ctx, 16):
        names = [n for n in m.entries if n.endswith("_Units")
                 and isinstance(m.entries[n], str)]
        for n in rng.sample(names, min(3, len(names))):
            raw = rawnc.Raw(path)
            v = rawnc.ncname(n.rsplit("_", 1)[0])
            old = raw.vars[v].attrs["Units"]
            raw.vars[v].attrs["Units"] = rng.choice([old.upper(),
                                                     old.title()])
            new = ctx.path("upper.sofa")
            foreign.dump(raw, new)
            judge(ctx, new, rawnc.Raw(new), [f"{n}={old.title()}"])
            o = call(ctx.sf.read_sofa, new, verify=True)
            ctx.check(o.exc is None, f"reading {conv.stem} with {n} in "
                      f"capitals {o!r}")
            r = call(ctx.sf.write_sofa, ctx.path("refused.sofa"), o.value)
            ctx.check(isinstance(r.exc, ValueError), f"writing {conv.stem} "
                      f"with {n} in capitals {r!r}")
            ctx.count("upper_case")


fixed = [one_missing, one_missing, one_missing, upper_case, upper_case]
