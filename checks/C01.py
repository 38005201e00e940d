"""C01 - writing and reading loses and invents nothing."""
import os

import numpy as np

from vlib import gen, oracle as O, rawnc
from vlib.harness import call

PROP = "C01"
RULE = ("random valid object (convention, sizes, values, masks, strings, "
        "custom data) written with a random compression level and read back; "
        "the content read is compared to the model that created the object; "
        "distinct by convention, entry set, shapes and dtypes")
QUICK = (32, 26)
THOROUGH = (400, 120)
ODD_PATHS = False
REQUIRED = ["monitor_evaluations", "custom_entries", "string_variables",
            "masked_variables"]
ASSUMPTIONS = ["netCDF fill value and NUL characters are not used",
               "names are identifiers"]


def roundtrip(ctx, m, o, name="a.sofa", compression=None, verify=None,
              again=True):
    path = ctx.path(name)
    if compression is None:
        ctx.must(ctx.sf.write_sofa, path, o)
    else:
        ctx.must(ctx.sf.write_sofa, path, o, compression=compression)
    preliminary = float(m.conv.version) < 1
    kw = {} if verify is None else {"verify": verify}
    got = ctx.must(ctx.sf.read_sofa, path, **kw).value
    judge(ctx, m, got, "after reading")
    ctx.count("entries_compared", len(m.entries))
    ctx.count("preliminary", int(preliminary))
    # sofar agrees that nothing changed (NaN compare equal)
    same = call(ctx.sf.equals, o, got, verbose=False)
    ctx.check(same.exc is None and same.value is True,
              f"equals(written, read) {same!r}", warnings=same.warns)
    if again:
        # definition of custom data: written again with the same layout
        second = ctx.path("again.sofa")
        ctx.must(ctx.sf.write_sofa, second, got)
        a, b = rawnc.load(ctx, path), rawnc.load(ctx, second)
        ctx.check(same_file(a, b), "writing the object again gives other "
                  "content: " + file_diff(a, b))
        third = ctx.must(ctx.sf.read_sofa, second, **kw).value
        judge(ctx, m, third, "after the second round trip")
    return got


def judge(ctx, m, got, when):
    d = O.diff_semantic(m, O.content(got))
    ctx.check(not d, f"content differs {when}: {d[:4]}",
              model=gen.describe(m))
    for n in m.custom:
        t, dims = m.custom[n]
        if t == "attribute":
            ctx.check(isinstance(O.content(got)[n], str),
                      f"{n} is no attribute {when}")
    ctx.check(bool(got.protected), f"object is not protected {when}")


def same_file(a, b):
    return not file_diff(a, b)


def file_diff(a, b):
    out = []
    if a.dims != b.dims:
        out.append(f"dimensions {a.dims} / {b.dims}")
    if a.attrs != b.attrs:
        out.append("global attributes")
    if set(a.vars) != set(b.vars):
        out.append("variables")
    for k in a.vars:
        if k not in b.vars:
            continue
        x, y = a.vars[k], b.vars[k]
        if x.dims != y.dims or str(x.dtype) != str(y.dtype):
            out.append(f"{k}: {x.dtype}{x.dims} / {y.dtype}{y.dims}")
        elif set(x.attrs) != set(y.attrs) or any(
                str(x.attrs[i]) != str(y.attrs[i]) for i in x.attrs):
            out.append(f"{k}: attributes")
        elif x.data.shape != y.data.shape or \
                x.data.dtype.kind == "f" and not O.same_bits(x.data, y.data) \
                or x.data.dtype.kind != "f" and \
                not np.array_equal(x.data, y.data):
            out.append(f"{k}: values")
    return ", ".join(out)


def count_features(ctx, m):
    ctx.count("custom_entries", len(m.custom))
    for n in m.entries:
        t, d, _ = m.meta(n)
        v = O.stored(m.entries[n])
        if t == "string":
            ctx.count("string_variables")
        if isinstance(v, np.ma.MaskedArray):
            ctx.count("masked_variables")
        if d and any(x not in "ERMNCIS, " for x in d.upper()):
            ctx.count("custom_dimensions")


def case(ctx):
    rng = ctx.rng
    g = gen.Gen(ctx, large=.08)
    m = g.random()
    if m is None:
        ctx.count("no_object")
        return
    o = gen.realise(ctx.sf, m, rng)
    ctx.sample = gen.describe(m)
    ctx.key(gen.signature(m))
    count_features(ctx, m)
    comp = rng.choice([None, 0, 1, 4, 9, rng.randint(0, 9)])
    ctx.count(f"compression_{comp}")
    verify = rng.choice([None, None, True, False])
    cur = roundtrip(ctx, m, o, rng.choice(["a.sofa", "b c.sofa", "é"]), comp,
                    verify)
    if rng.random() < .3:
        # change some data and write over the file
        new = g.one_value(m.copy())
        if g.valid(new):
            changed = [n for n in new.entries
                       if new.entries[n] is not m.entries[n] and
                       not same(new, m, n)]
            for n in changed:
                gen.put(cur, n, O.cp(new.entries[n]))
            ctx.count("overwritten_files")
            roundtrip(ctx, new, cur, "a.sofa", again=False)


def same(a, b, n):
    t, d, _ = a.meta(n)
    return O.same_value(a.entries[n], b.entries[n], t, d)


def large_objects(ctx):
    """More data than the random objects have."""
    rng = ctx.rng
    for conv in rng.sample(sorted(gen.Gen(ctx).conventions(),
                                  key=lambda c: c.stem), 4):
        m = gen.default_model(conv)
        m.custom["Measured"] = ("double", O.custom_dims("TQ"))
        m.entries["Measured"] = ctx.np.standard_normal((300_000, 4))
        m.custom["Measured_Remarks"] = ("attribute", None)
        m.entries["Measured_Remarks"] = "Größe " * 20_000 + "."
        m.custom["Names"] = ("string", O.custom_dims("TS"))
        names = [f"name {i}" for i in range(300_000)]
        names[rng.randrange(300_000)] = "é" * rng.randint(30, 200)
        m.entries["Names"] = np.array(names)
        m.entries["GLOBAL_Title"] = "title " * 30_000 + "."
        for d in "ABDFGHJK":
            m.custom["Along" + d] = ("double", O.custom_dims(d))
            m.entries["Along" + d] = ctx.np.standard_normal(ord(d))
        if not gen.Gen(ctx).valid(m):
            continue
        roundtrip(ctx, m, gen.realise(ctx.sf, m), "large.sofa",
                  rng.choice([0, 1, 4, 9]), again=rng.random() < .3)
        ctx.count("large_objects")
        ctx.key("large", conv.stem)


def every_convention(ctx):
    """Default object of every convention, all compression levels once."""
    level = 0
    for conv in gen.Gen(ctx).conventions():
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        os.makedirs(ctx.dir, exist_ok=True)
        roundtrip(ctx, m, o, conv.stem, level)
        level = (level + 1) % 10
        ctx.key(conv.stem)


def large(ctx):
    """A file of realistic size."""
    conv = ctx.cat.get("SimpleFreeFieldHRIR", "1.0")
    m = gen.default_model(conv)
    M, N = 700, 257
    m.entries["Data_IR"] = ctx.np.standard_normal((M, 2, N))
    m.entries["Data_Delay"] = ctx.np.standard_normal((M, 2))
    m.entries["SourcePosition"] = ctx.np.uniform(0, 360, (M, 3))
    m.custom["Labels"] = ("string", "MS")
    m.entries["Labels"] = np.array([f"µ{i}" * (i % 5) for i in range(M)])
    m.entries["Labels"] = m.entries["Labels"].reshape(M)
    o = gen.realise(ctx.sf, m)
    roundtrip(ctx, m, o)
    ctx.key("large")


def lost_attribute(ctx):
    """Attribute of an optional variable that is not in the object."""
    sf = ctx.sf
    o = gen.quiet(sf.Sofa, "FreeFieldDirectivityTF")
    o.delete("SourceTuningFrequency")
    gen.quiet(sf.write_sofa, ctx.path("a.sofa"), o)
    got = gen.quiet(sf.read_sofa, ctx.path("a.sofa"))
    return hasattr(o, "SourceTuningFrequency_Units") and \
        not hasattr(got, "SourceTuningFrequency_Units")


fixed = [large_objects, every_convention, large]
known = [("attribute of an optional convention variable that is not part of "
          "the object (SourceTuningFrequency_Units without "
          "SourceTuningFrequency) is accepted by verify and lost by "
          "write_sofa", lost_attribute)]
