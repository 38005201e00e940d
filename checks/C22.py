"""C22 - the form in which data is assigned does not matter."""
import numpy as np

from vlib import gen, mutate, oracle as O, rawnc
from vlib.harness import call
from vlib.history import lines

PROP = "C22"
RULE = ("random valid and invalid objects are made twice from the same "
        "values: once from plain arrays and once with every value in another "
        "form (numbers, lists, tuples, ranges, numpy scalars, arrays of other "
        "type, byte order, memory layout, without or with more trailing "
        "dimensions, byte strings, masked arrays), assigned, added or "
        "assigned again; stored values, verdicts, reports, dimensions, "
        "comparison, raw file content and the content read back of both are "
        "compared; distinct by convention, entry and form")
QUICK = (32, 22)
THOROUGH = (400, 200)
REQUIRED = ["forms", "pairs_verified", "pairs_rejected", "pairs_written",
            "dimensions_compared", "form_list", "form_nested", "form_tuple",
            "form_scalar", "form_dtype", "form_layout", "form_trailing",
            "form_text", "form_more", "form_row", "form_column"]


def plain(value, type_, dims):
    """The value as an array with all its dimensions (or text)."""
    n = len(dims.split(", ")[0])
    if type_ == "string":
        shape, items = O.str_items(value, n)
        return np.array(items, dtype="U").reshape(shape)
    v = O.stored(value)
    shape = O.num_shape(v, n)
    if isinstance(v, np.ma.MaskedArray):
        return np.ma.MaskedArray(
            np.ma.getdata(v).astype(float).reshape(shape),
            mask=np.ma.getmaskarray(v).reshape(shape))
    return np.array(v, dtype=np.float64).reshape(shape)


def cut(rng, a, least, count):
    """Discard trailing singleton dimensions."""
    while a.ndim > least and a.shape[-1] == 1 and rng.random() < .7:
        a = a[..., 0]
        count.append("trailing")
    return a


def layout(rng, a, count):
    k = rng.randrange(6)
    if k < 5:
        count.append("layout")
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 2:
        return a[::-1].copy()[::-1]
    if k == 3:
        a = a.copy()
        a.flags.writeable = False
        return a
    if k == 4:
        return np.broadcast_to(a, (1,) + a.shape)[0]
    return a


def dtype(rng, a, count):
    opts = ["i1", "i2", "i4", "i8", ">i4", "f4", ">f8", "f2", ">f4", "f8"]
    rng.shuffle(opts)
    for t in opts:
        with np.errstate(all="ignore"):
            b = a.astype(t)
            c = b.astype(np.float64)
        if O.same_bits(np.asarray(a), c):
            if b.dtype != a.dtype:
                count.append("dtype")
            return b
    return a


def listed(rng, a, count):
    kind = rng.choice([list, list, tuple])
    count.append("tuple" if kind is tuple else
                 "nested" if a.ndim > 1 else "list")

    def rec(x):
        return kind(rec(y) for y in x) if isinstance(x, list) else x
    return rec(a.tolist())


def numeric_form(rng, a, dims):
    """(value, names of what was done)"""
    count = []
    n = len(dims.split(", ")[0])
    setter = any(d.islower() for d in dims.split(", ")[0])
    if isinstance(a, np.ma.MaskedArray):
        if rng.random() < .5:
            a = np.ma.MaskedArray(np.asfortranarray(a.data),
                                  mask=np.asfortranarray(a.mask))
            count.append("layout")
        return cut(rng, a, 2, count), count
    if a.size == 1 and rng.random() < .6:
        count.append("scalar")
        a = dtype(rng, a, count)
        v = a.reshape(-1)[0]
        return rng.choice([v, v.item(), [v.item()], (v,), np.array(v),
                           [[v.item()]], np.array([v])]), count
    r = rng.random()
    if n == 1 and a.ndim > 1:
        pass
    elif n == 1:
        if r < .25:
            count.append("row")
            a = a.reshape(1, -1)
        elif r < .35:
            count.append("column")
            a = a.reshape(-1, 1)
        elif r < .6:
            b = dtype(rng, a, count)
            if b.dtype.kind == "i" and rng.random() < .5 and a.size > 1 and \
                    len(set(np.diff(a.astype(float)))) == 1 and \
                    a[1] != a[0]:
                count.append("range")
                step = int(a[1] - a[0])
                return range(int(a[0]), int(a[-1]) + (1 if step > 0 else -1),
                             step), count
            return listed(rng, b, count), count
    else:
        a = cut(rng, a, 2, count)
        if a.ndim == 2 and a.shape[0] == 1 and a.shape[1] > 1 and r < .3:
            a = a[0]
            count.append("row")
            if setter or rng.random() < .5:
                return listed(rng, dtype(rng, a, count), count), count
        elif r < .5:
            return listed(rng, dtype(rng, a, count), count), count
        elif r < .6:
            count.append("more")
            a = a.reshape(a.shape + (1,) * (n - a.ndim + rng.randint(1, 2)))
    return layout(rng, dtype(rng, a, count), count), count


def string_form(rng, a):
    count = ["text"]
    if a.size == 1 and rng.random() < .6:
        count.append("scalar")
        v = str(a.reshape(-1)[0])
        return rng.choice([v, [v], (v,), np.array([v]), [[v]]]), count
    r = rng.random()
    if r < .35:
        count.append("dtype")
        return layout(rng, np.char.encode(a, "utf-8"), count), count
    if r < .6 and a.ndim > 1:
        return listed(rng, a, count), count
    if r < .7:
        a = a.astype(f"U{max(1, a.dtype.itemsize // 4) + 3}")
    return layout(rng, a, count), count


def form(ctx, value, type_, dims):
    if type_ == "attribute":
        r = ctx.rng.random()
        if r > .2 or not isinstance(value, str):
            return value, []
        ctx.count("form_attribute")
        return (np.str_(value) if r < .1 else [value]), ["attribute"]
    a = plain(value, type_, dims)
    v, count = string_form(ctx.rng, a) if type_ == "string" else \
        numeric_form(ctx.rng, a, dims)
    for k in set(count):
        ctx.count("form_" + k)
    ctx.count("forms")
    return v, count


def assign(o, n, v):
    try:
        gen.put(o, n, v)
    except TypeError:
        o.protected = False
        try:
            gen.put(o, n, v)
        finally:
            o.protected = True


def compare(ctx, a, b, what, tier):
    """Everything that can be observed about both objects agrees."""
    verdicts = []
    for mode in ("write", "read"):
        ra, rb = (call(x.verify, mode=mode) for x in (a, b))
        ctx.check((ra.exc is None) == (rb.exc is None),
                  f"verify({mode}) depends on the form of the data: {ra!r} "
                  f"and {rb!r}", forms=what)
        ctx.check(type(ra.exc) is type(rb.exc) and
                  lines(str(ra.exc or ""), *ra.warns) ==
                  lines(str(rb.exc or ""), *rb.warns) or
                  "shape" in str(ra.exc) or "type" in str(ra.exc),
                  "the report depends on the form of the data",
                  first=str(ra.exc), second=str(rb.exc), forms=what)
        verdicts.append(ra.exc is None)
    ctx.count("pairs_verified", verdicts[0])
    ctx.count("pairs_rejected", not verdicts[0])
    for d in "MRENSCITQ":
        ra, rb = (call(x.get_dimension, d) for x in (a, b))
        ctx.check((ra.exc is None) == (rb.exc is None) and
                  (ra.exc is not None or ra.value == rb.value),
                  f"get_dimension({d}) depends on the form of the data: "
                  f"{ra!r} and {rb!r}", forms=what)
        ctx.count("dimensions_compared")
    for x, y in ((a, b), (b, a)):
        r = call(ctx.sf.equals, x, y, rng_verbose(ctx))
        ctx.check(r.exc is None and r.value is True,
                  f"equals {r!r} for the same values in other forms",
                  warnings=r.warns, forms=what)
    if not verdicts[0]:
        return
    # writing
    paths = [ctx.path(x) for x in ("a.sofa", "b.sofa")]
    for o, p in zip((a, b), paths):
        r = call(ctx.sf.write_sofa, p, o)
        ctx.check(r.exc is None, f"write_sofa {r!r}", forms=what)
    fa, fb = (rawnc.Raw(p) for p in paths)
    ctx.check(fa.dims == fb.dims and fa.attrs == fb.attrs,
              "dimensions or attributes of the file depend on the form",
              forms=what)
    ctx.check(set(fa.vars) == set(fb.vars), "variables differ", forms=what)
    for n in fa.vars:
        x, y = fa.vars[n], fb.vars[n]
        ctx.check(x.dims == y.dims and x.dtype == y.dtype and
                  x.attrs == y.attrs and x.data.shape == y.data.shape and
                  (O.same_bits(x.data, y.data) if x.data.dtype.kind == "f"
                   else x.data.tobytes() == y.data.tobytes()),
                  f"{n} is written in another way: {x.dims} {x.data.dtype} "
                  f"{O.short(x.data)} and {y.dims} {y.data.dtype} "
                  f"{O.short(y.data)}", forms=what)
    ra, rb = (ctx.must(ctx.sf.read_sofa, p, verify=False,
                       verbose=False).value for p in paths)
    d = O.diff_content(O.content(ra), O.content(rb))
    ctx.check(not d, f"{d[:4]} are read in another form", forms=what)
    ctx.count("pairs_written")


def rng_verbose(ctx):
    return ctx.rng.random() < .5


def case(ctx):
    rng = ctx.rng
    g = gen.Gen(ctx, rng.choice(["read", "write", "write"]))
    m = g.random()
    if m is None:
        ctx.count("no_object")
        return
    if rng.random() < .3:
        for _ in range(rng.randint(1, 2)):
            mutate.shape(rng, ctx.np, m)
    for n in list(m.entries):
        t, d, _ = m.meta(n)
        if t == "attribute":
            continue
        if t == "double" and not O.type_ok(m.entries[n], t):
            return
        m.entries[n] = plain(m.entries[n], t, d)
        if m.entries[n].size == 0:
            return
    a = gen.realise(ctx.sf, m)
    other, what = m.copy(), {}
    for n in other.entries:
        t, d, _ = m.meta(n)
        v, count = form(ctx, m.entries[n], t, d)
        if count:
            what[n] = f"{count} {O.short(v, 80)}"
            ctx.key(m.conv.stem, n, tuple(sorted(set(count))))
        other.entries[n] = v
    ctx.sample = what
    b = gen.realise(ctx.sf, other, rng if rng.random() < .3 else None)
    for n in other.entries:
        if m.meta(n)[0] != "attribute" and rng.random() < .3:
            # assign in a third and again in the second form
            t, d, _ = m.meta(n)
            if rng.random() < .5:
                assign(b, n, form(ctx, m.entries[n], t, d)[0])
            assign(b, n, other.entries[n])
        got = getattr(b, n)
        want = O.stored(other.entries[n])
        ctx.check(O.identical(got, want) or
                  isinstance(want, str) and isinstance(got, str) and
                  got == want or
                  n in gen.DYNAMIC and isinstance(got, str),
                  f"{n} holds {O.short(got)} after assigning "
                  f"{O.short(other.entries[n])}", expected=want)
    for n in gen.DYNAMIC:
        if hasattr(a, n) and hasattr(b, n):
            assign(b, n, getattr(a, n))
    compare(ctx, a, b, what, ctx.tier)


def every_variable(ctx):
    """Every variable of every convention in many forms, one at a time."""
    rng = ctx.rng
    for conv in ctx.cat.conventions:
        m = gen.default_model(conv)
        a = gen.realise(ctx.sf, m)
        ref = [call(a.verify, mode="read").exc is None,
               call(a.verify, mode="write").exc is None]
        for n in m.entries:
            t, d, _ = m.meta(n)
            if t == "attribute":
                continue
            p = plain(m.entries[n], t, d)
            for _ in range(8):
                b = a.copy()
                v, count = form(ctx, p, t, d)
                assign(b, n, v)
                got = [call(b.verify, mode="read").exc is None,
                       call(b.verify, mode="write").exc is None]
                ctx.check(got == ref, f"verdict of {conv.stem} changes from "
                          f"{ref} to {got} if {n} is given as {O.short(v)}",
                          forms=count)
                r = call(ctx.sf.equals, a, b)
                ctx.check(r.exc is None and r.value is True, f"equals {r!r} "
                          f"if {n} is given as {O.short(v)}")
                ctx.key(conv.stem, n, tuple(sorted(set(count))))
                ctx.count("pairs_verified")


fixed = [every_variable]
