"""C02 - layout of written files, judged by an independent reader."""
from vlib import gen, oracle as O, rawnc

from . import C01

PROP = "C02"
RULE = ("random valid object written with a random compression level; the raw "
        "netCDF file (read without conversions) is compared to the layout "
        "predicted from the convention tables; distinct by convention, entry "
        "set, shapes and dtypes")
QUICK = (32, 30)
THOROUGH = (400, 140)
REQUIRED = ["monitor_evaluations", "variables_compared", "custom_dimensions"]
ASSUMPTIONS = ["the netCDF4 package reads back what is in the file"]


def judge(ctx, m, o, path, level=4):
    raw = rawnc.load(ctx, path)
    for n, v in raw.vars.items():
        got = v.filters or {}
        ctx.check((got.get("complevel", 0) if got.get("zlib") else 0) == level,
                  f"{n} was written with compression {level} but has {got}")
    p = rawnc.layout_problems(raw, m)
    ctx.check(not p, f"file differs from the AES69 layout: {p[:4]}",
              model=gen.describe(m))
    for d, n in raw.dims.items():
        got = ctx.must(o.get_dimension, d).value
        ctx.check(got == n or d == "S" and got == 0 and n == 1,
                  f"get_dimension({d}) is {got}, the file has {n}")
    ctx.check(raw.dims.get("C") == 3 and raw.dims.get("I") == 1, "C or I")
    ctx.count("variables_compared", len(raw.vars))
    ctx.count("attributes_compared", len(m.entries) - len(raw.vars))


def case(ctx):
    rng = ctx.rng
    g = gen.Gen(ctx)
    m = g.random()
    if m is None:
        ctx.count("no_object")
        return
    o = gen.realise(ctx.sf, m, rng)
    ctx.sample = gen.describe(m)
    ctx.key(gen.signature(m))
    C01.count_features(ctx, m)
    path = ctx.path("a.sofa")
    origin = rng.choice(["new", "new", "copy", "read", "changed"])
    if origin == "copy":
        o = ctx.must(o.copy).value
    elif origin == "read":
        ctx.must(ctx.sf.write_sofa, ctx.path("0.sofa"), o)
        o = ctx.must(ctx.sf.read_sofa, ctx.path("0.sofa")).value
    elif origin == "changed":
        # an earlier write must not influence the layout
        ctx.must(ctx.sf.write_sofa, path, o, compression=0)
        new = g.attempt(m, g.resize, 3)
        if not gen.orphans(new):
            for n in new.entries:
                if new.meta(n)[1] is not None:
                    gen.put(o, n, O.cp(new.entries[n]))
            m = new
    ctx.count("origin_" + origin)
    level = rng.choice([0, 1, 4, 9, 2, 7])
    if level == 4 and rng.random() < .5:
        ctx.must(ctx.sf.write_sofa, path, o)
    else:
        ctx.must(ctx.sf.write_sofa, path, o, compression=level)
    ctx.count(f"compression_{level}")
    judge(ctx, m, o, path, level)


def every_convention(ctx):
    for conv in gen.Gen(ctx).conventions():
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        ctx.must(ctx.sf.write_sofa, ctx.path(conv.stem), o)
        judge(ctx, m, o, ctx.path(conv.stem))
        ctx.key(conv.stem)


fixed = [every_convention]
