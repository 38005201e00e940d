"""C19 - reported dimensions always match the current data."""
import re

import numpy as np

from vlib import gen, oracle as O
from vlib.harness import call
from vlib.history import History

PROP = "C19"
RULE = ("random histories (resizing, data of wrong shape and type, custom "
        "dimensions, strings of any length and encoding, arrays changed in "
        "place, deleting, copying, "
        "reading, upgrading) with get_dimension, list_dimensions and inspect "
        "judged by the sizes of the current data after each operation; "
        "distinct by sequence of operations")
QUICK = (32, 22)
THOROUGH = (400, 150)
REQUIRED = ["dimensions_judged", "refused_dimensions", "lists_judged",
            "inspections", "custom_dimensions", "arrays_inspected", "files",
            "in_place_element", "in_place_shape", "in_place_size"]

WEIGHTS = {"set": 10, "add": 4, "delete": 2, "copy": 1, "roundtrip": 1.5,
           "upgrade": .6, "repair": .5, "create": .7, "realise": .7,
           "fix": 3, "inplace": 3, "refused": .3, "add_missing": .3}


def state(h, s):
    err, _ = O.issues(s.m, h.cat, "write")
    bad = any(f in ("type", "shape", "missing") for f, _, _ in err)
    try:
        sizes, amb = O.dimensions(s.m)
    except Exception:                        # noqa: BLE001
        if not bad:
            raise
        sizes, amb = {}, True
    return bad, sizes, amb, err


def dimensions(h, s):
    bad, sizes, amb, err = state(h, s)
    rng, ctx = h.rng, h.ctx
    if not bad and amb:
        return
    dims = sorted(sizes) or list("MRENCIS")
    for d in rng.sample(dims, min(len(dims), 4)):
        r = call(s.o.get_dimension, d)
        if bad:
            h.check(("C19",), isinstance(r.exc, ValueError),
                    f"get_dimension({d}) {r!r} but the data has issues "
                    f"{err[:3]}")
            ctx.count("refused_dimensions")
            continue
        h.check(("C19",), r.exc is None and isinstance(
            r.value, (int, np.integer)) and int(r.value) == sizes[d],
            f"get_dimension({d}) {r!r} but the size is {sizes[d]}",
            model=gen.describe(s.m))
        ctx.count("dimensions_judged")
        ctx.count("custom_dimensions", int(d not in "MRENCIS"))
    no = rng.choice([x for x in ["Q", "Z", "m", "foo", "", "MR", "K2"]
                     if x not in sizes])
    r = call(s.o.get_dimension, no)
    h.check(("C19",), isinstance(r.exc, ValueError),
            f"get_dimension({no!r}) {r!r}")


def listing(h, s):
    bad, sizes, amb, err = state(h, s)
    if not bad and amb:
        return
    r = call(getattr, s.o, "list_dimensions")
    if bad:
        h.check(("C19",), isinstance(r.exc, ValueError),
                f"list_dimensions {r!r} but the data has issues {err[:3]}")
        return
    h.check(("C19",), r.exc is None, f"list_dimensions {r!r}",
            model=gen.describe(s.m))
    got = re.findall(r"^(\S+) = (\d+) (.*)$", r.out, re.M)
    h.check(("C19",), sorted(x[0] for x in got) == sorted(sizes)
            and {d: int(n) for d, n, _ in got} == sizes,
            f"listed {[x[:2] for x in got]} but the sizes are {sizes}",
            out=r.out)
    words = {d: w for d, _, w in got}
    e = s.m.entries
    for d, w in words.items():
        h.check(("C19",), O.meaning(d, w, e["GLOBAL_DataType"]),
                f"{d} is described as {w!r} for {e['GLOBAL_DataType']}")
    for d, n in (("R", "ReceiverPosition_Type"),
                 ("E", "EmitterPosition_Type")):
        h.check(("C19",), ("harmonics" in words[d].split(" (set")[0]) ==
                ("harmonic" in O.stored(e[n]).lower()), f"{d} is described as "
                f"{words[d]!r} for {e[n]!r}")
    h.ctx.count("lists_judged")


def shown(text, value):
    """Is `text` the given value (numbers in any usual format)?"""
    forms = [" ".join(str(x).split()) for x in (
        value, np.squeeze(value), np.asarray(value).reshape(-1)[0])]
    if " ".join(text.split()) in forms:
        return True
    if np.asarray(value).dtype.kind not in "fiu" or \
            isinstance(value, np.ma.MaskedArray):
        return False
    try:
        got = [float(x) for x in re.sub(r"[\[\],]", " ", text).split()]
    except ValueError:
        return False
    want = np.asarray(value, float).reshape(-1)
    return len(got) == want.size and \
        np.allclose(got, want, rtol=1e-6, atol=0, equal_nan=True)


def inspection(h, s):
    """inspect shows each entry once with value or shape."""
    ctx, rng = h.ctx, h.rng
    bad, sizes, amb, err = state(h, s)
    if any("\n" in str(O.stored(v)) for v in s.m.entries.values()
           if isinstance(O.stored(v), str)):
        return
    if any(isinstance(O.stored(v), dict) for v in s.m.entries.values()):
        return
    kw = {}
    f = ctx.path(f"inspect{h.files}.txt")
    if rng.random() < .4:
        kw = {"file": f}
        h.files += 1
        if rng.random() < .5:
            # replaces an existing file
            with open(f, "w") as fid:
                fid.write("something else\n" * 2000)
    r = call(s.o.inspect, issue_handling="ignore", **kw)
    if r.exc is not None and isinstance(r.exc, UnicodeEncodeError):
        return
    h.check(("C19",), r.exc is None, f"inspect {r!r}", issues=err[:3],
            model=gen.describe(s.m))
    text = r.out
    ctx.count("inspections")
    if kw:
        with open(f) as fid:
            saved = fid.read()
        h.check(("C19", "C17"), saved.strip() == text.strip(),
                "file and console output of inspect differ")
        ctx.count("files")
    rows = text.split("\n")
    for n, v in O.content(s.o).items():
        hits = [i for i, x in enumerate(rows) if x.startswith(n + " : ")]
        h.check(("C19",), len(hits) == 1,
                f"inspect shows {n} {len(hits)} times", out=text[:3000])
        row = rows[hits[0]][len(n) + 3:]
        t, d, _ = s.m.meta(n)
        if t == "attribute":
            h.check(("C19",), row == str(v) or np.size(v) > 1
                    or not isinstance(v, str),
                    f"inspect shows {n} as {row!r} but it is {v!r}")
            continue
        if np.size(v) == 1:
            h.check(("C19",), shown(row, v) or "\n" in str(v)
                    or isinstance(v, np.ma.MaskedArray),
                    f"inspect shows {n} as {row!r} but it is {v!r}")
            ctx.count("values_inspected")
            continue
        if not isinstance(v, np.ndarray):
            continue
        got = re.findall(r"(\S)=(\d+)", row)
        shape = [int(x) for _, x in got]
        h.check(("C19",), O.trim(shape) == O.trim(v.shape)
                or d and len(d.split(", ")[0]) == 1
                and shape == [v.size] or bad,
                f"inspect shows shape {row!r} of {n} but it is {v.shape}")
        if not bad and not amb:
            dim = O.match_dims(s.m, n, sizes)
            if all(a == b for a, b in zip(shape, v.shape)) and \
                    len(shape) <= len(dim):
                h.check(("C19",), [x for x, _ in got] ==
                        list(dim[:len(got)]),
                        f"inspect shows dimensions {row!r} of {n} but they "
                        f"are {dim}")
        ctx.count("arrays_inspected")
        if v.size < 7:
            want = " ".join(str(np.squeeze(v)).split())
            have = " ".join(" ".join(rows[hits[0] + 1:hits[0] + 2 + v.size
                                          * 3]).split())
            ok = have.startswith(want)
            if not ok and v.dtype.kind in "fiu":
                # the values might be shown in another format
                tokens = re.sub(r"[\[\],]", " ", have).split()[:v.size]
                ok = len(tokens) == v.size and shown(" ".join(tokens), v)
            h.check(("C19",), ok,
                    f"inspect does not show the values of {n}", want=want,
                    have=have[:300])
            ctx.count("values_inspected")


def after(h):
    s = h.last if h.last in h.slots and h.rng.random() < .8 else \
        h.rng.choice(h.slots)
    k = h.rng.random()
    if k < .5:
        dimensions(h, s)
    if k > .35:
        h.rng.choice([listing, inspection])(h, s)
    h.observe(s, (), ("C09",), "asking for dimensions")


def case(ctx):
    h = History(ctx, PROP, ctx.rng.choice(["read", "write"]), invalid=.15)
    h.run(WEIGHTS, ctx.rng.randint(3, 14), after)


def lengths(ctx):
    """S is the length in bytes of the longest string."""
    sf = ctx.sf
    conv = ctx.cat.get("GeneralTF", "2.0")
    from vlib.history import Slot
    for text in ["", "a", "abc", "ä", "日本", "🎧", "a" * 300, "é" * 77]:
        for form in (str, np.str_, lambda x: np.array([x]),
                     lambda x: np.array([[x]]), lambda x: [x],
                     lambda x: np.array([x.encode()]),
                     lambda x: np.array([x], dtype="U500")):
            h = History(ctx, PROP)
            h.op_create(conv)
            s = h.slots[0]
            s.m.custom["Foo"] = ("string", "IS")
            s.m.entries["Foo"] = form(text)
            gen.quiet(s.o.add_variable, "Foo", form(text), "string", "IS")
            s.snap = O.freeze(O.content(s.o))
            n = len(text.encode())
            got = ctx.must(s.o.get_dimension, "S").value
            ctx.check(got == n, f"S is {got} for {form(text)!r}")
            listing(h, s)
            inspection(h, s)
            ctx.key("S", text, type(form(text)).__name__)
    assert Slot and sf


def every_convention(ctx):
    for conv in ctx.cat.conventions:
        h = History(ctx, PROP)
        h.op_create(conv)
        s = h.slots[0]
        for _ in range(3):
            if not O.issues(s.m, ctx.cat, "read")[0]:
                new = h.g.resize(s.m.copy())
                h.assign(s, new, "assignment")
            for f in (dimensions, listing, inspection):
                f(h, s)
        ctx.key(conv.stem)


fixed = [lengths, every_convention]
