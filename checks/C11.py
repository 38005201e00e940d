"""C11 - SofaStream shows the same content as reading the whole file."""
import hashlib
import os
import re

import numpy as np

from vlib import foreign, gen, oracle as O, rawnc
from vlib.harness import call

PROP = "C11"
RULE = ("files written by sofar from random objects and rewritten in other "
        "netCDF layouts; every entry, random slices of every variable, names "
        "that are not contained, all dimensions, list_dimensions and inspect "
        "of SofaStream are judged by read_sofa and by the raw file; the file "
        "is hashed before and after; distinct by convention, variable, type "
        "and slice")
QUICK = (32, 15)
THOROUGH = (400, 120)
REQUIRED = ["variables", "attributes", "slices", "unknown_names",
            "foreign_files", "masked", "strings", "dimensions", "listed",
            "inspected"]


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def join(x):
    """Strings of a character or string array."""
    a = np.asarray(x)
    if a.dtype.kind == "U":
        return a.astype(object)
    return a


def random_index(rng, shape):
    out = []
    for n in shape[:rng.randint(0, len(shape))]:
        k = rng.randrange(5)
        if n == 0 or k == 0:
            out.append(slice(None))
        elif k == 1:
            out.append(rng.randrange(n))
        elif k == 2:
            out.append(-1)
        elif k == 3:
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            out.append(slice(a, b, rng.choice([None, 1, 2])))
        else:
            out.append(slice(rng.choice([None, -2, 1]), None))
    if len(out) < len(shape) and rng.random() < .3:
        out.append(Ellipsis)
    return tuple(out) if out else slice(None)


def variable(ctx, s, name, v, got, value):
    """v is the raw variable, got what the stream returns."""
    rng = ctx.rng
    ctx.check(tuple(got.dimensions) == v.dims and
              tuple(got.shape) == v.data.shape,
              f"{name} has {got.dimensions} {got.shape} instead of {v.dims} "
              f"{v.data.shape}")
    text = v.dtype == np.dtype("S1")
    if text:
        full = rawnc.strings(v)
        want = np.asarray(value, dtype=object)
        ctx.check(full.size == want.size, f"read_sofa returns {value!r}")
        shape = full.shape
        ctx.count("strings")
    else:
        full = v.data
        shape = full.shape
    mask = None if text else (full == rawnc.FILL)
    if mask is not None and mask.any():
        ctx.count("masked")
    for _ in range(rng.randint(1, 3)):
        i = random_index(rng, shape)
        r = call(got.__getitem__, i)
        ctx.check(r.exc is None, f"{name}[{i}] {r!r}")
        x = r.value
        if text:
            ref = np.asarray(full[i if shape else ...], dtype=object)
            if np.asarray(x).dtype.kind == "S" or \
                    np.asarray(x).shape != ref.shape:
                # single characters
                x = np.ma.filled(x, b"") if isinstance(
                    x, np.ma.MaskedArray) else np.asarray(x)
                if not x.size:
                    continue
                x = np.ascontiguousarray(x)
                if x.dtype.kind == "U":
                    x = np.char.encode(x, "utf-8")
                y = [b"".join(row).decode("utf-8") for row in
                     x.reshape(-1, x.shape[-1]).tolist()]
            else:
                y = [str(t) for t in np.ma.filled(x, "").reshape(-1).tolist()]\
                    if isinstance(x, np.ma.MaskedArray) else \
                    [str(t) for t in np.asarray(x).reshape(-1).tolist()]
            ctx.check(y == ref.reshape(-1).tolist(),
                      f"{name}[{i}] is {y} but must be {ref}")
        else:
            j = i if shape else ...
            ref, m = np.asarray(full[j]), np.asarray(mask[j])
            ctx.check(np.shape(x) == ref.shape,
                      f"{name}[{i}] has shape {np.shape(x)} but must have "
                      f"{ref.shape}")
            gm = np.broadcast_to(np.ma.getmaskarray(x), np.shape(x))
            ctx.check(np.array_equal(gm, m), f"{name}[{i}]: missing values "
                      "differ", got=x)
            ctx.check(O.same_bits(np.asarray(np.ma.getdata(x), float), ref.
                                  astype(float), m), f"{name}[{i}]: values "
                      "differ", got=x, expected=ref)
        ctx.count("slices")
        ctx.key(name, v.dims, str(v.dtype), repr(i))
    # everything, compared to read_sofa
    x = got[...] if not text else None
    if x is not None:
        ctx.check(O.same_num(np.reshape(x, O.trim(np.shape(x)) or (1,))
                             if np.size(x) else x,
                             np.reshape(value, O.trim(v.data.shape) or (1,)),
                             1 if np.ndim(x) < 2 else np.ndim(x)),
                  f"{name} differs from read_sofa", stream=x, read=value)


def unknown(ctx, s, names, raw, o):
    rng = ctx.rng
    pool = ["Foo", "Data", "Data_Foo", "data_IR", "IR", "Units", "shape",
            "GLOBAL", "GLOBAL_", "GLOBAL_Foo", "dimensions", "variables",
            "ncattrs", "M", "N", "S", "filepath", "close", "groups",
            "Data_", "ReceiverPosition_", "title", "_foo", "__x__",
            "Data_IR_Units_x"]
    for n in rng.sample(sorted(names), min(len(names), 12)):
        pool += [n + "_", n.lower(), n.upper(), n[:-1], n + "s",
                 "GLOBAL_" + n, n + "_shape", n.replace("GLOBAL_", "GLOBAL"),
                 n.replace("GLOBAL_", "GLOBAL."), "Global_" + n[7:],
                 n.replace("GLOBAL_", "GLOBAL_GLOBAL_"), n + "_Foo", n + "_name",
                 n + "_dtype", n + "_dimensions", "Data_" + n, "_" + n,
                 n.replace("_", ""), n.replace("_", "__"), n + "_Units_Units"]
        if "_" in n:
            # attributes of another variable
            other = rng.choice(sorted(names))
            pool.append(other + "_" + n.split("_")[-1])
            if n.startswith("Data_"):
                pool.append(n[5:])
            if not n.startswith("GLOBAL_"):
                pool.append("GLOBAL_" + n.split("_")[-1])
    for n in rng.sample(pool, 40):
        if n in names or n in raw.attrs or hasattr(type(s), n) or \
                n in vars(s) or n.endswith(("_Encoding", "__FillValue")) or \
                n.startswith("__"):
            continue
        r = call(getattr, s, n)
        ctx.check(isinstance(r.exc, AttributeError),
                  f"{n} is not in the file but {r!r}")
        ctx.count("unknown_names")


def dimensions(ctx, s, raw, o):
    for d, n in raw.dims.items():
        r = call(s.get_dimension, d)
        ctx.check(r.exc is None and r.value == n,
                  f"get_dimension({d}) {r!r} but the size is {n}")
        ctx.count("dimensions")
    for d in ("Q", "m", "", "foo", "MR", "n"):
        if d not in raw.dims:
            r = call(s.get_dimension, d)
            ctx.check(isinstance(r.exc, ValueError),
                      f"get_dimension({d}) {r!r}")
    r = call(getattr, s, "list_dimensions")
    ctx.check(r.exc is None, f"list_dimensions {r!r}")
    got = re.findall(r"^(\S+) = (\d+) (.*)$", r.out, re.M)
    ctx.check({d: int(n) for d, n, _ in got} == raw.dims and
              len(got) == len(raw.dims),
              f"listed {got} but the dimensions are {raw.dims}")
    words = {d: w for d, _, w in got}
    t = raw.attrs["DataType"]
    for d, w in words.items():
        ctx.check(O.meaning(d, w, t), f"{d} is described as {w!r} for {t}")
    for d, p in (("R", "ReceiverPosition"), ("E", "EmitterPosition")):
        ctx.check(("harmonics" in words[d]) ==
                  ("harmonic" in raw.vars[p].attrs["Type"].lower()),
                  f"{d} is {words[d]}")
    ctx.count("listed")


def inspect(ctx, s, raw, names, content):
    kw = {}
    f = ctx.path("inspect.txt")
    if ctx.rng.random() < .5:
        kw = {"file": f}
        if ctx.rng.random() < .5:
            # replaces an existing file
            with open(f, "w") as fid:
                fid.write("something else\n" * 2000)
            ctx.count("text_replaced")
    r = call(s.inspect, **kw)
    if isinstance(r.exc, UnicodeEncodeError):
        return
    ctx.check(r.exc is None, f"inspect {r!r}")
    rows = r.out.split("\n")
    if kw:
        with open(f) as fid:
            ctx.check(fid.read().strip() == r.out.strip(),
                      "file and output of inspect differ")
        os.remove(f)
    for n in names:
        hits = [x for x in rows if x.startswith(n + " : ")]
        if any("\n" in x for x in raw.attrs.values()
               if isinstance(x, str)) and len(hits) != 1:
            continue
        ctx.check(len(hits) >= 1, f"inspect does not show {n}",
                  out=r.out[:3000])
        v = content[n]
        if isinstance(v, str) and "\n" not in v and len(hits) == 1 and \
                (n.startswith("GLOBAL_")):
            ctx.check(hits[0] == f"{n} : {v}",
                      f"inspect shows {hits[0]!r} but it is {v!r}")
        nc = rawnc.ncname(n)
        if nc in raw.vars and raw.vars[nc].data.size > 1:
            v = raw.vars[nc]
            ctx.check(any(re.findall(r"([^\s(=]+)=(\d+)", h) ==
                          [(d, str(k)) for d, k in zip(v.dims, v.data.shape)]
                          for h in hits),
                      f"inspect shows {hits} for {v.dims} {v.data.shape}")
        elif nc in raw.vars and raw.vars[nc].data.size == 1 and \
                raw.vars[nc].data.dtype.kind in "fi":
            x = raw.vars[nc].data.reshape(-1)[0]
            if x != rawnc.FILL:
                got = hits[0][len(n) + 3:].strip("[] ")
                try:
                    ok = np.isclose(float(got), float(x), rtol=1e-6, atol=0,
                                    equal_nan=True)
                except ValueError:
                    ok = False
                ctx.check(ok, f"inspect shows {hits[0]!r} but it is {x}")
    ctx.count("inspected")


def judge(ctx, path, verify=None):
    rng, sf = ctx.rng, ctx.sf
    before = digest(path), os.stat(path).st_mtime_ns
    listing = sorted(os.listdir(ctx.dir))
    raw = rawnc.Raw(path)
    o = call(sf.read_sofa, path, verify=False, verbose=False)
    ctx.check(o.exc is None, f"read_sofa {o!r}")
    content = O.content(o.value)
    names = list(content)
    if sorted(raw.names()) != sorted(names):
        # (judged by C18)
        ctx.count("left_to_other_checks")
        return
    with sf.SofaStream(path) as s:
        order = list(names)
        rng.shuffle(order)
        for n in order:
            r = call(getattr, s, n)
            ctx.check(r.exc is None, f"{n} {r!r}")
            nc = rawnc.ncname(n)
            if nc in raw.vars:
                ctx.check(type(r.value).__name__ == "Variable",
                          f"{n} is {r.value!r}")
                ctx.count("variables")
                variable(ctx, s, n, raw.vars[nc], r.value, content[n])
            else:
                ctx.check(type(r.value) is type(content[n]) and
                          r.value == content[n],
                          f"{n} is {r.value!r} instead of {content[n]!r}")
                ctx.count("attributes")
        unknown(ctx, s, set(names), raw, o.value)
        dimensions(ctx, s, raw, o.value)
        inspect(ctx, s, raw, names, content)
    ctx.check((digest(path), os.stat(path).st_mtime_ns) == before,
              "streaming changed the file")
    ctx.check(sorted(os.listdir(ctx.dir)) == listing,
              f"files {os.listdir(ctx.dir)} instead of {listing}")


def case(ctx):
    rng = ctx.rng
    g = gen.Gen(ctx)
    m = g.random()
    if m is None or gen.orphans(m):
        return
    o = gen.realise(ctx.sf, m, rng)
    path = ctx.path(rng.choice(["a.sofa", "b c.sofa", "ü.sofa"]))
    w = call(ctx.sf.write_sofa, path, o, rng.choice([0, 4]))
    if w.exc is not None:
        ctx.count("left_to_other_checks")
        return
    ctx.sample = gen.describe(m)
    judge(ctx, path)
    if rng.random() < .6:
        other = ctx.path("other.sofa")
        what = foreign.rewrite(path, other, rng, scalars=True)
        for x in what:
            ctx.count("foreign_" + x.replace(" ", "_"))
        ctx.count("foreign_files")
        judge(ctx, other)


def before_opening(ctx):
    s = ctx.sf.SofaStream(ctx.path("no.sofa"))
    for n in ("GLOBAL_Title", "Data_IR", "foo", "_file"):
        r = call(getattr, s, n)
        ctx.check(isinstance(r.exc, AttributeError), f"{n} {r!r}")
    r = call(s.__enter__)
    ctx.check(r.exc is not None, f"{r!r}")
    ctx.check(not os.listdir(ctx.dir), "a file was created")


def every_convention(ctx):
    for conv in ctx.cat.conventions:
        if conv.name in ctx.cat.deprecations["GLOBAL:SOFAConventions"]:
            continue
        o = gen.quiet(ctx.sf.Sofa, conv.name, version=conv.version)
        gen.quiet(ctx.sf.write_sofa, ctx.path(conv.stem), o)
        judge(ctx, ctx.path(conv.stem + ".sofa"))


def harmonics(ctx):
    """Meaning of the dimensions for all types of positions and data."""
    for conv in gen.Gen(ctx).conventions():
        for r in ("cartesian", "spherical", "spherical harmonics"):
            m = gen.default_model(conv)
            n = "ReceiverPosition_Type"
            if m.entries.get(n) == r or n not in m.entries:
                continue
            m.entries[n] = r
            m.entries["ReceiverPosition_Units"] = "metre" \
                if r == "cartesian" else "degree, degree, metre"
            if O.issues(m, ctx.cat, "write")[0]:
                continue
            o = gen.realise(ctx.sf, m)
            w = call(ctx.sf.write_sofa, ctx.path("h.sofa"), o)
            if w.exc is None:
                judge(ctx, ctx.path("h.sofa"))
                ctx.count("receiver_" + r.replace(" ", "_"))


def interleaved(ctx):
    """Several streams at the same time."""
    sf = ctx.sf
    a = gen.quiet(sf.Sofa, "GeneralTF")
    b = gen.quiet(sf.Sofa, "SimpleFreeFieldHRIR")
    for o, p in ((a, "a.sofa"), (b, "b.sofa")):
        o.GLOBAL_Title = p
        gen.quiet(sf.write_sofa, ctx.path(p), o)
    with sf.SofaStream(ctx.path("a.sofa")) as x:
        with sf.SofaStream(ctx.path("b.sofa")) as y:
            va, vb = x.SourcePosition, y.Data_IR
            for _ in range(3):
                ctx.check(x.GLOBAL_Title == "a.sofa", x.GLOBAL_Title)
                ctx.check(y.GLOBAL_Title == "b.sofa", y.GLOBAL_Title)
                ctx.check(call(getattr, x, "Data_IR").exc is not None,
                          "stream shows data of another file")
                ctx.check(np.array_equal(
                    np.ravel(va[:]), np.ravel(a.SourcePosition)), "a")
                ctx.check(np.array_equal(
                    np.ravel(vb[:]), np.ravel(b.Data_IR)), "b")
        ctx.check(np.array_equal(np.ravel(va[:]), np.ravel(
            a.SourcePosition)), "values after closing another stream")


fixed = [before_opening, every_convention, harmonics, interleaved]
