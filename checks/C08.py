"""C08 - custom data behaves like convention data."""
import numpy as np

from vlib import gen, oracle as O, rawnc
from vlib.harness import call
from vlib.history import History, Slot, report_of

from . import C01

PROP = "C08"
RULE = ("random histories of adding, changing, deleting and re-adding custom "
        "data on objects of every origin; after each operation the entries, "
        "the verdict, the dimensions, a written file and comparison with an "
        "object that was made directly from the model are judged; plus "
        "single additions judged by the naming rules; distinct by sequence of "
        "operations and by name, type, and dimensions")
QUICK = (32, 24)
THOROUGH = (400, 150)
REQUIRED = ["added", "added_again", "deleted_custom", "read", "files_judged",
            "additions_accepted", "additions_refused", "direct_objects"]

WEIGHTS = {"add": 8, "delete": 4, "set": 4, "copy": 1.5, "roundtrip": 1.5,
           "refused": 3, "query": 1, "add_missing": 1, "upgrade": .4,
           "repair": .4, "create": .3, "realise": .3, "fix": 2}


def after(h):
    """Custom data is part of verdict, dimensions, files, comparisons."""
    rng, ctx = h.rng, h.ctx
    s = h.last if h.last in h.slots else rng.choice(h.slots)
    if not s.m.custom and not s.deleted or rng.random() < .3:
        return
    for mode in ("read", "write"):
        err, _ = O.issues(s.m, ctx.cat, mode)
        r = call(s.o.verify, mode=mode)
        h.check(("C08",), (r.exc is not None) == bool(err),
                f"verify(mode={mode}) {r!r} but expected {err[:3]}",
                custom=s.m.custom)
    fam = {e[0] for e in err}
    ctx.count("verdicts")
    if "type" in fam or "missing" in fam:
        return
    sizes, amb = O.dimensions(s.m)
    if not amb and "shape" not in fam:
        dims = [d for d in sizes if d not in "MRENCIS"]
        for d in dims[-1:] + [rng.choice(sorted(sizes))]:
            n = sizes[d]
            r = call(s.o.get_dimension, d)
            h.check(("C08", "C19"), r.exc is None and r.value == n,
                    f"get_dimension({d}) {r!r} but is {n}",
                    custom=s.m.custom)
    if err or gen.orphans(s.m) or rng.random() < .65:
        return
    direct(h, s)


def direct(h, s):
    """The object equals one that was made without the history."""
    ctx = h.ctx
    h.files += 1
    a, b = ctx.path(f"a{h.files}.sofa"), ctx.path(f"b{h.files}.sofa")
    w = call(ctx.sf.write_sofa, a, s.o)
    h.check(("C08",), w.exc is None, f"write_sofa {w!r}", custom=s.m.custom)
    p = rawnc.layout_problems(rawnc.load(ctx, a), s.m)
    h.check(("C08", "C02"), not p, f"written file differs: {p[:3]}",
            custom=s.m.custom)
    ctx.count("files_judged")
    o = gen.realise(ctx.sf, s.m.copy(), ctx.rng)
    ctx.count("direct_objects")
    e = call(ctx.sf.equals, s.o, o, False)
    h.check(("C08", "C10"), e.exc is None and e.value is True,
            f"object differs from one that was made directly: {e!r}",
            custom=s.m.custom, deleted=s.deleted)
    call(ctx.sf.write_sofa, b, o)
    d = C01.file_diff(rawnc.load(ctx, a), rawnc.load(ctx, b))
    h.check(("C08",), not d, "files of an object with history and one made "
            f"directly differ: {d}", custom=s.m.custom, deleted=s.deleted)
    for mode in ("read", "write"):
        h.check(("C08", "C09"), report_of(s.o, mode) == report_of(o, mode),
                "an object made directly verifies differently",
                a=report_of(s.o, mode), b=report_of(o, mode))


NAMES = ["Foo", "Bar", "x", "Foo_Bar", "Data_Foo", "Data", "_Foo", "Foo_",
         "Temp2", "Ä", "Foo_Bar_Baz", "DataFoo"]
NOT_STORABLE = ["", " Foo", "Foo ", "a/b", "a.b", "Data.Foo", "/", ".", " "]
NO_ATTRS = ["GLOBAL_", "Foo_", "_Foo", "GLOBAL_ x", "GLOBAL_x ", "GLOBAL_a/b",
            "Data_IR_", "SourcePosition_", "SourcePosition_ ", "_", "",
            "Data_SamplingRate_/"]
ATTRS = ["Foo_Units", "Bar_Units", "GLOBAL_Foo", "GLOBAL_Foo_Bar", "Foo",
         "GLOBALFoo", "ListenerPosition_Foo", "ListenerPosition_Foo_Bar",
         "SourcePosition_Type", "Data_IR_Foo", "Data_Real_Foo",
         "Data_SamplingRate_Foo", "Data_Foo", "Data_Foo_Bar",
         "Data_IR_Foo_Bar", "NoVar_Units", "M_Foo", "GLOBAL_", "Foo_x",
         "GLOBAL_Title", "Title_Foo"]


def additions(ctx):
    """Accepted if and only if the rules for additions are obeyed."""
    rng = ctx.rng
    h = History(ctx, PROP)
    h.op_create()
    s = h.slots[0]
    if rng.random() < .3:
        h.op_copy()
        s = h.slots[-1]
    for _ in range(rng.randint(2, 8)):
        k = rng.random()
        if k < .4:
            n = rng.choice(ATTRS if rng.random() < .8 else NO_ATTRS)
            t, d, v = "attribute", None, rng.choice(["text", "", "Ä"])
            fn, args = s.o.add_attribute, (n, v)
        else:
            n = rng.choice(NAMES + [x for x in s.m.entries
                                    if s.m.meta(x)[1]][:3])
            if rng.random() < .15:
                n = rng.choice(NOT_STORABLE)
            t = rng.choice(["double", "double", "string", "string", "float",
                            "Double", "str"])
            d = rng.choice(["I", "M", "MR", "mr", "IC", "MS", "S", "RS",
                            "ms", "SM", "MSI", "T", "tM", "MT", "TS", None,
                            "MREN", "NQ", "MRENS"])
            v = "abc" if t == "string" else 1.5
            fn, args = s.o.add_variable, (n, v, t, d)
        if n == "Data_Foo" and t == "attribute":
            # (nothing is specified for names that are no attribute names)
            continue
        if n.endswith("_Bar") and n.startswith("Data_Foo"):
            ok = False
        else:
            ok = h.may_add(s, n, t, d, v)
        if n in s.m.conv.api() and n not in s.m.entries:
            continue
        if t != "attribute" and n == "Data":
            continue
        ctx.key("add", n, t, d, ok, n in s.m.entries)
        if ok:
            ctx.count("additions_accepted")
            h.add(s, n, t, d, v) if t == "attribute" else add(h, s, args)
        else:
            ctx.count("additions_refused")
            h.refused(s, "addition", fn, *args, labels=("C08", "C07"))
    after(h)


def add(h, s, args):
    n, v, t, d = args
    s.m.custom[n] = (t, O.custom_dims(d))
    s.m.entries[n] = v
    h.accepted(s, ("C08",), "add_variable", (n,), s.o.add_variable, *args)


def case(ctx):
    if ctx.rng.random() < .3:
        try:
            additions(ctx)
        except Exception as e:               # noqa: BLE001
            if type(e).__name__ != "Drop":
                raise
        return
    h = History(ctx, PROP, ctx.rng.choice(["read", "write", "write"]),
                invalid=.08)
    h.run(WEIGHTS, ctx.rng.randint(3, 14), after)


def lives(ctx):
    """One long life for every kind of entry and origin."""
    rng = ctx.rng
    kinds = [("Foo", "double", "MR", None), ("Foo", "double", "T", None),
             ("Foo", "string", "MS", None), ("Foo", "double", "NTI", None),
             ("Foo", "string", "TS", None), ("Foo", "double", "MREN", None),
             ("GLOBAL_Foo", "attribute", None, "text"),
             ("ListenerPosition_Foo", "attribute", None, "Größe")]
    for j, origin in enumerate(("created", "copied", "read", "repaired")):
        # (all combinations only in the thorough tier)
        for n, t, d, v in kinds if ctx.tier == "thorough" else \
                kinds[j % 2::2]:
            h = History(ctx, PROP, "write")
            h.op_create(ctx.cat.get("GeneralTF", "2.0"))
            if origin == "copied":
                h.op_copy()
            elif origin == "read":
                h.op_roundtrip()
            elif origin == "repaired":
                h.op_repair()
            s = h.last or h.slots[-1]
            for m_size in (1, 3) if ctx.tier == "thorough" else (3, ):
                new = s.m.copy()
                new.entries["Data_Real"] = np.zeros((m_size, 1, 2))
                new.entries["Data_Imag"] = np.zeros((m_size, 1, 2))
                new.entries["N"] = np.array([1., 2.])
                h.assign(s, new, "assignment")
                value = v
                if t != "attribute":
                    sizes = dict(gen.dim_sizes(s.m), T=2)
                    value = gen.random_variable(
                        rng, ctx.np, t, O.custom_dims(d), sizes)
                h.add(s, n, t, d, value)
                direct(h, s)
                if t != "attribute":
                    h.add(s, n + "_Units", "attribute", None, "metre")
                    direct(h, s)
                    h.last = s
                    h.slots = [s]
                    h.op_roundtrip()
                    h.op_copy()
                    for x in list(h.slots):
                        direct(h, x)
                    s = h.slots[1]
                    names = [n + "_Units", n]
                else:
                    names = [n]
                for x in names:
                    s.m.entries.pop(x)
                    s.m.custom.pop(x)
                    s.deleted.append((x, None))
                    h.accepted(s, ("C08",), "delete", (x,), s.o.delete, x)
                direct(h, s)
                if t != "attribute":
                    h.refused(s, "addition", s.o.add_attribute,
                              n + "_Units", "metre", labels=("C08",))
                    # again with another definition
                    t, d = ("string", "MS") if t == "double" else \
                        ("double", "RT")
            ctx.key("life", origin, n, t, d)
    assert Slot


fixed = [lives]
