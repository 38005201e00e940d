"""C04 - mandatory data, data types, and names."""
import numpy as np
from netCDF4 import Dataset

from vlib import gen, mutate, oracle as O, verdict

PROP = "C04"
RULE = ("valid random object with mandatory entries removed, values of other "
        "types assigned, or (through a changed file) entries with odd names; "
        "judged by the reference model; distinct by convention, entry, type "
        "label and verdict")
QUICK = (32, 80)
THOROUGH = (400, 450)
REQUIRED = ["accepted", "rejected", "types_tried", "names_tried",
            "missing_tried"]
FAM = ("missing", "type", "name")

BAD_VARS = ["PRIVATE", "PRIVATEData", "API", "APIInfo", "GLOBAL", "GLOBALx",
            "GLOBAL_Var", "My_Var", "Data_Foo", "Data.Foo", "Data.Foo.Bar",
            "Data_Foo_Bar", "Title", "GoodVar", "private", "Api", "MyAPI",
            "MyGLOBAL", "a_b_c", "_x", "Variable"]
BAD_ATTRS = ["My_Attr", "a_b_c", "Fine", "API", "GLOBAL", "x_", "_x",
             "PRIVATE", "Units2"]
BAD_GLOBALS = ["PRIVATE", "a_b", "API", "GLOBAL", "GLOBAL_x", "Fine", "x_y_z",
               "ListenerPosition", "ListenerPosition_Type", "N", "Data_IR",
               "My_"]


def judge(ctx, o, m, mode):
    err, _ = O.issues(m, ctx.cat, mode)
    if any(f not in FAM for f, _, _ in err):
        ctx.count("skipped")
        return
    verdict.judge(ctx, o, m, mode, FAM)


def types(ctx, rng, g, mode):
    m = g.random()
    o = gen.realise(ctx.sf, m, rng)
    for _ in range(rng.randint(1, 3)):
        base = m.copy()
        done = [mutate.type_(rng, ctx.np, base)
                for _ in range(rng.choice([1, 1, 1, 2]))]
        done = [d for d in done if d]
        if not done:
            continue
        o.protected = False
        for n, _ in done:
            gen.put(o, n, O.cp(base.entries[n]))
        o.protected = True
        err, _ = O.issues(base, ctx.cat, mode)
        ctx.key("type", m.conv.stem, tuple(done), bool(err))
        ctx.count("types_tried", len(done))
        judge(ctx, o, base, mode)
        # back to valid data
        o.protected = False
        for n, _ in done:
            gen.put(o, n, O.cp(m.entries[n]))
        o.protected = True
    verdict.judge(ctx, o, m, mode, FAM)


def missing(ctx, rng, g, mode):
    m = g.random()
    o = gen.realise(ctx.sf, m, rng)
    new = m.copy()
    mutate.missing(rng, new)
    gone = [n for n in m.entries if n not in new.entries]
    if rng.random() < .3:
        mutate.type_(rng, ctx.np, new)
        o = gen.realise(ctx.sf, new, rng)
    else:
        o.protected = False
        for n in gone:
            o.delete(n)
        o.protected = True
    ctx.key("missing", m.conv.stem, tuple(gone))
    ctx.count("missing_tried", len(gone))
    judge(ctx, o, new, mode)


def names(ctx, rng, g, mode):
    """Entries that can only come from files."""
    g = gen.Gen(ctx, "write", masked=False)
    m = g.random()
    if float(m.conv.version) < 1:
        pass
    o = gen.realise(ctx.sf, m, rng)
    path = ctx.path("a.sofa")
    ctx.must(ctx.sf.write_sofa, path, o)
    new = m.copy()
    added = []
    with Dataset(path, "a") as f:
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.randrange(3)
            if kind == 0:
                v = rng.choice(BAD_VARS)
                py = v.replace(".", "_")
                if v in f.variables or new.known(py) or py.startswith("_") \
                        or v.replace("_", ".") in f.variables:
                    continue
                t = rng.choice(["double", "string"])
                dims = ("I",) if t == "double" else ("I", "S")
                if t == "string" and f.dimensions["S"].size < 1:
                    continue
                var = f.createVariable(v, "f8" if t == "double" else "S1",
                                       dims)
                if t == "double":
                    var[:] = 1.5
                    new.entries[py] = 1.5
                else:
                    var[0, 0] = "a"
                    new.entries[py] = "a"
                new.custom[py] = (t, "".join(dims))
                added.append(py)
            elif kind == 1:
                v = rng.choice(list(f.variables))
                a = rng.choice(BAD_ATTRS)
                py = v.replace(".", "_") + "_" + a
                if new.known(py) or a.startswith("_"):
                    continue
                f.variables[v].setncattr(a, "text")
                new.custom[py] = ("attribute", None)
                new.entries[py] = "text"
                added.append(py)
            else:
                a = rng.choice(BAD_GLOBALS)
                py = "GLOBAL_" + a
                if new.known(py):
                    continue
                f.setncattr(a, "text")
                new.custom[py] = ("attribute", None)
                new.entries[py] = "text"
                added.append(py)
    got = ctx.must(ctx.sf.read_sofa, path, verify=False, verbose=False).value
    diff = O.diff_semantic(new, O.content(got))
    ctx.check(not diff, f"read other content than in the file: {diff[:3]}")
    ctx.key("names", m.conv.stem, tuple(sorted(added)))
    ctx.count("names_tried", len(added))
    judge(ctx, got, new, mode)


def orphaned(ctx, rng, g, mode):
    """Attributes of custom variables that were deleted."""
    m = g.random()
    new = m.copy()
    o = gen.realise(ctx.sf, m, rng)
    name = rng.choice(["Foo", "Units", "MyVar2"])
    if m.known(name):
        return
    ctx.must(o.add_variable, name, 1, "double", "I")
    for a in rng.sample(["Units", "Type", "x"], rng.randint(0, 2)):
        ctx.must(o.add_attribute, f"{name}_{a}", "text")
        new.custom[f"{name}_{a}"] = ("attribute", None)
        new.entries[f"{name}_{a}"] = "text"
    if rng.random() < .7:
        ctx.must(o.delete, name)
    else:
        new.custom[name] = ("double", "I")
        new.entries[name] = 1
    ctx.key("orphan", m.conv.stem, name, len(new.custom))
    judge(ctx, o, new, mode)


def case(ctx):
    rng = ctx.rng
    mode = rng.choice(["write", "read"])
    g = gen.Gen(ctx, mode)
    f = rng.choice([types, types, types, missing, names, names, orphaned])
    f(ctx, rng, g, mode)


def every_entry(ctx):
    """Each entry of each convention: missing and with a wrong type."""
    g = gen.Gen(ctx, "read")
    for conv in g.conventions():
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        for n, e in conv.api().items():
            if n in gen.LOCKED:
                continue
            old = getattr(o, n)
            o.protected = False
            if O.mandatory(e["flags"]):
                o.delete(n)
                o.protected = True
                new = m.copy()
                del new.entries[n]
                verdict.judge(ctx, o, new, "read", FAM)
                o.protected = False
                gen.put(o, n, old)
            bad = 1.5 if e["type"] != "double" else "text"
            gen.put(o, n, bad)
            o.protected = True
            new = m.copy()
            new.entries[n] = bad
            verdict.judge(ctx, o, new, "read", FAM)
            o.protected = False
            gen.put(o, n, old)
            o.protected = True
            ctx.key(conv.stem, n)
        verdict.judge(ctx, o, m, "read", FAM)


def orphan_of_optional(ctx):
    """Attribute of an optional convention variable that is missing."""
    o = gen.quiet(ctx.sf.Sofa, "FreeFieldDirectivityTF")
    o.delete("SourceTuningFrequency")
    return o.verify(issue_handling="return") is None


fixed = [every_entry]
known = [("attribute of an optional convention variable that is not part of "
          "the object (SourceTuningFrequency_Units without "
          "SourceTuningFrequency) is accepted by verify",
          orphan_of_optional)]
