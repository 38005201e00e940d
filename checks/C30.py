"""C30 - streaming reads only what is requested."""
import io
import contextlib
import os
import tracemalloc

import numpy as np

from vlib import gen, oracle as O, rawnc
from vlib.harness import call

PROP = "C30"
RULE = ("files of objects with large numeric and string variables (all "
        "conventions, custom data, compressed or not) are used through "
        "SofaStream: opening, attributes, handles of variables, dimensions, "
        "reports, random slices; the peak of the memory Python and numpy "
        "allocate and the bytes read from the file are measured for every "
        "call and compared to the size of the requested data; distinct by "
        "convention, call and size")
QUICK = (32, 2)
THOROUGH = (200, 20)
REQUIRED = ["large_variables", "handles", "slices", "reports", "attributes",
            "bytes_read_measured", "whole_variables",
            "custom_dimensions"]
# allowed for everything that is not data
MEMORY, READ = 500_000, 600_000
# the HDF5 library reads some megabytes when a file is opened
OPENING = 6_000_000
ASSUMPTIONS = ["buffers of the netCDF library are only seen as bytes read"]


def rchar():
    """Bytes this process has read so far."""
    try:
        with open("/proc/self/io") as f:
            return int(f.readline().split()[1])
    except OSError:
        return None


def measure(fn, *args):
    tracemalloc.reset_peak()
    start, read = tracemalloc.get_traced_memory()[0], rchar()
    with contextlib.redirect_stdout(io.StringIO()):
        v = fn(*args)
    peak = tracemalloc.get_traced_memory()[1] - start
    now = rchar()
    return v, peak, None if read is None or now is None else now - read


def big_object(ctx):
    """An object of which one or more variables are large."""
    rng = ctx.rng
    g = gen.Gen(ctx)
    m = g.random(steps=2) or gen.default_model(g.convention())
    o = gen.realise(ctx.sf, m, rng)
    used = "".join(str(e.get("dimensions")) for e in o._convention.values()
                   ).upper() + "IMRENCS"
    free = [c for c in "LABXYZTUVWDFGHJKOPQ" if c not in used]
    if len(free) < 4:
        return big_object(ctx)
    A, B, C, X = free[:4]
    n = rng.randint(1_000_000, 2_000_000)
    names = []
    if rng.random() < .5:
        o.add_variable("Large", ctx.np.random(n), "double", A)
        names.append("Large")
    if rng.random() < .5 or not names:
        k = rng.randint(2, 9)
        o.add_variable("Wide", ctx.np.random((n // k, k)), "double",
                       B + C)
        names.append("Wide")
    if rng.random() < .3:
        o.add_variable("Texts", np.array(["text", "ab"] * (n // 80)),
                       "string", X + "S")
        names.append("Texts")
    return m, o, names


def case(ctx):
    rng = ctx.rng
    os.chdir(ctx.dir)
    m, o, names = big_object(ctx)
    comp = rng.choice([0, 0, 4, 1])
    path = ctx.path("a.sofa")
    with contextlib.redirect_stdout(io.StringIO()):
        r = call(ctx.sf.write_sofa, path, o, comp)
    ctx.check(r.exc is None, f"write_sofa {r!r}", model=gen.describe(m))
    attrs = [n for n, v in O.content(o).items() if isinstance(v, str)
             and o._convention[n]["type"] == "attribute"]
    total = {n: getattr(o, n).size * 8 if n != "Texts" else
             getattr(o, n).size * o.get_dimension("S") for n in names}
    values = {n: getattr(o, n) for n in names}
    ctx.count("large_variables", len(names))
    dims = {}
    for n in names:
        for d, k in zip(o._convention[n]["dimensions"], values[n].shape):
            dims[d.upper()] = k
    del o
    tracemalloc.start()
    try:
        use(ctx, path, dims, names, total, values, attrs, comp)
    finally:
        tracemalloc.stop()
    ctx.sample = {"convention": m.conv.stem, "bytes": total,
                  "compression": comp}


def limits(ctx, what, peak, read, wanted, comp, detail, allowed=READ):
    most = MEMORY + 6 * wanted
    ctx.check(peak <= most, f"{what} needs {peak} bytes of memory for "
              f"{wanted} bytes of data", **detail)
    if comp == 0 and read is not None:
        ctx.check(read <= allowed + wanted, f"{what} reads {read} bytes for "
                  f"{wanted} bytes of data", **detail)
        ctx.count("bytes_read_measured")
    ctx.key(what.split("[")[0], wanted, detail["total"])


def use(ctx, path, dims, names, total, values, attrs, comp):
    rng, sf = ctx.rng, ctx.sf
    detail = {"total": total, "compression": comp}

    def opened():
        s = sf.SofaStream(path)
        s.__enter__()
        return s
    s, peak, read = measure(opened)
    try:
        limits(ctx, "opening the file", peak, read, 0, comp, detail,
               OPENING)
        for _ in range(14):
            one(ctx, s, dims, names, total, values, attrs, comp, detail)
    finally:
        _, peak, read = measure(s.__exit__, None, None, None)
    limits(ctx, "closing the file", peak, read, 0, comp, detail)


def one(ctx, s, dims, names, total, values, attrs, comp, detail):
    rng = ctx.rng
    x = rng.random()
    n = rng.choice(names)
    if x < .15:
        _, peak, read = measure(lambda: s.list_dimensions)
        return limits(ctx, "list_dimensions", peak, read, 0, comp, detail)
    if x < .3:
        kw = {} if rng.random() < .5 else {"file": ctx.path("t.txt")}
        _, peak, read = measure(lambda: s.inspect(**kw))
        ctx.count("reports")
        return limits(ctx, "inspect", peak, read, 0, comp, detail)
    if x < .4:
        a = rng.choice(attrs)
        _, peak, read = measure(getattr, s, a)
        ctx.count("attributes")
        return limits(ctx, "reading an attribute", peak, read, 0, comp,
                      detail)
    if x < .5:
        d = rng.choice(["M", "R", "N", "E", "C", *dims, *dims, *dims])
        v, peak, read = measure(s.get_dimension, d)
        if d in dims:
            ctx.check(v == dims[d], f"dimension {d} is {v} and not "
                      f"{dims[d]}", **detail)
            ctx.count("custom_dimensions")
        return limits(ctx, "get_dimension", peak, read, 0, comp, detail)
    v, peak, read = measure(getattr, s, n)
    limits(ctx, "accessing a variable", peak, read, 0, comp, detail)
    ctx.count("handles")
    if x < .6:
        shape, peak, read = measure(lambda: (v.shape, v.dimensions, v.dtype))
        return limits(ctx, "the shape of a variable", peak, read, 0, comp,
                      detail)
    size = v.shape[0]
    if x < .65:
        a, b = 0, size
        ctx.count("whole_variables")
    else:
        a = rng.randrange(size)
        b = min(size, a + rng.choice([1, 2, 100, 5000]))
    got, peak, read = measure(lambda: v[a:b])
    wanted = (b - a) * total[n] // size
    if comp and not n == "Texts" and b - a < size:
        # (complete chunks are read, but not by Python)
        read = None
    limits(ctx, f"reading {n}[{a}:{b}]", peak, read, wanted, comp, detail)
    ctx.count("slices")
    if n != "Texts":
        ctx.check(np.array_equal(np.asarray(got), values[n][a:b]),
                  f"reading {n}[{a}:{b}] returns other values", **detail)
