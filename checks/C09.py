"""C09 - queries have no side effects and objects are independent."""
import numpy as np

from vlib import gen, mutate, oracle as O
from vlib.harness import call
from vlib.history import History, Slot, lines

PROP = "C09"
RULE = ("random histories of queries, changes (also of single array elements "
        "in place), copies, reads and new objects on a pool of up to four "
        "objects; after every operation all objects are compared bit by bit "
        "with their state before, and the verdict of an object with a "
        "history with that of a fresh object of the same content; distinct "
        "by sequence of operations")
QUICK = (32, 24)
THOROUGH = (400, 170)
REQUIRED = ["queries", "changed_in_place", "states_observed", "read",
            "verdicts_compared", "reports_compared",
            "returned_values_changed",
            "query_inspect", "query_equals",
            "query_write", "query_verify", "query_list", "query_info"]

WEIGHTS = {"query": 12, "set": 4, "inplace": 4, "copy": 2.5, "create": 1.5,
           "roundtrip": 1.5, "add": 2, "delete": 2, "refused": 2,
           "upgrade": .7, "repair": .5, "realise": .6, "fix": 1.5}


def fresh(sf, slot):
    """An object with the same content and no history."""
    m, now = slot.m, O.content(slot.o)
    o = gen.quiet(sf.Sofa, m.conv.name, version=m.conv.version, verify=False)
    o.protected = False
    for n in list(O.content(o)):
        if n not in now:
            delattr(o, n)
    for n, v in now.items():
        if n not in m.custom:
            gen.put(o, n, O.cp(v))
    o.protected = True
    for n in sorted(m.custom, key=lambda x: m.custom[x][0] == "attribute"):
        t, d = m.custom[n]
        if t == "attribute":
            gen.quiet(o.add_variable, n, O.cp(now[n]), t, None)
        else:
            gen.quiet(o.add_variable, n, O.cp(now[n]), t, d)
    return o


def verdict(o, mode, how):
    r = call(o.verify, issue_handling=how, mode=mode)
    return (type(r.exc).__name__, lines(str(r.exc) if r.exc else ""),
            lines(r.value if isinstance(r.value, str) else ""),
            lines(r.out), [lines(w) for w in r.warns])


def after(h):
    rng = h.rng
    if rng.random() < .5:
        return
    s = rng.choice(h.slots)
    orphan = [n for n in s.m.custom if s.m.custom[n][0] == "attribute"
              and not n.startswith("GLOBAL_")
              and n[:n.rindex("_")] not in s.m.entries]
    if orphan:
        return
    f = fresh(h.sf, s)
    mode = rng.choice(["read", "write"])
    how = rng.choice(["raise", "return", "print"])
    if rng.random() < .5:
        # the verdict does not depend on verdicts before
        call(s.o.verify, rng.choice(["raise", "return", "ignore"]),
             rng.choice(["read", "write"]))
    a, b = verdict(s.o, mode, how), verdict(f, mode, how)
    h.check(("C09",), a == b, "verify depends on the history of the object",
            with_history=a, fresh=b, origin=s.origin, custom=s.m.custom)
    h.ctx.count("verdicts_compared")
    if rng.random() < .4:
        a, b = [call(getattr, x, "list_dimensions") for x in (s.o, f)]
        da, db = [sorted(x.split(" (set by")[0] for x in r.out.split("\n"))
                  for r in (a, b)]
        h.check(("C09", "C19"), (a.exc is None) == (b.exc is None)
                and da == db, "dimensions depend on the history",
                with_history=da, fresh=db)
    if rng.random() < .3:
        a = call(s.o.inspect, issue_handling="ignore")
        b = call(f.inspect, issue_handling="ignore")
        bad = O.issues(s.m, h.cat, "read")[0]
        h.check(("C09", "C19"), bad or lines(a.out) == lines(b.out),
                "inspect depends on the history", with_history=a.out,
                fresh=b.out)
    h.observe(s, (), ("C09",), "queries")


def others(ctx):
    """What is reported about an object does not depend on other objects."""
    rng, sf = ctx.rng, ctx.sf
    g = gen.Gen(ctx, "read", masked=False)

    def invalid(n):
        for _ in range(8):
            m = g.random(steps=rng.randint(0, 6))
            if m is None:
                continue
            for _ in range(n):
                mutate.rule(rng, ctx.cat, m, "read", g)
            try:
                return gen.realise(sf, m)
            except ValueError:
                pass
        return None

    def report(o):
        r = call(o.inspect, issue_handling="ignore")
        out = [lines(r.out), type(r.exc).__name__]
        for mode in ("read", "write"):
            for how in ("raise", "return", "print"):
                out.append(verdict(o, mode, how))
        return out
    kept = [o for o in (invalid(rng.randint(1, 4))
                        for _ in range(rng.randint(1, 4))) if o is not None]
    before = [report(o) for o in kept]
    for _ in range(rng.randint(4, 10)):
        o = invalid(rng.randint(1, 5))
        if o is None:
            continue
        for _ in range(rng.randint(1, 3)):
            call(o.verify, rng.choice(["raise", "return", "print", "ignore"]),
                 rng.choice(["read", "write"]))
        if rng.random() < .3:
            call(o.upgrade_convention)
        if rng.random() < .3:
            call(o.inspect, issue_handling="ignore")
        if rng.random() < .3:
            call(o.info, rng.choice(["all", "mandatory", "optional"]))
        if rng.random() < .3:
            call(sf.write_sofa, ctx.path("others.sofa"), o)
        if rng.random() < .3:
            call(o.copy().verify, "return")
    for o, was in zip(kept, before):
        now = report(o)
        ctx.check(now == was, "the report about an object depends on other "
                  "objects that were verified", before=was, after=now)
        ctx.count("reports_compared")
        ctx.key("others", o.GLOBAL_SOFAConventions, str(was[2])[:300])


def case(ctx):
    if ctx.rng.random() < .15:
        return others(ctx)
    h = History(ctx, PROP, ctx.rng.choice(["read", "write"]), invalid=.25)
    h.run(WEIGHTS, ctx.rng.randint(4, 22), after)


def sharing(ctx):
    """Objects do not share their arrays with anything."""
    sf = ctx.sf
    for conv in ctx.cat.conventions:
        a, b = [gen.quiet(sf.Sofa, conv.name, version=conv.version,
                          verify=False) for _ in range(2)]
        c = a.copy()
        before = [O.freeze(O.content(x)) for x in (b, c)]
        for n, v in O.content(a).items():
            if isinstance(v, np.ndarray) and v.dtype.kind in "if":
                v[...] = 77
            elif isinstance(v, np.ndarray):
                v[...] = "changed"
        a.add_variable("Foo", 1, "double", "I")
        a.add_attribute("Foo_Units", "metre")
        a.add_attribute("GLOBAL_Foo", "bar")
        for x, s in zip((b, c), before):
            d = O.diff_content(s, O.content(x))
            ctx.check(not d, f"changes to one object changed another: {d}")
            for n in ("Foo", "GLOBAL_Foo", "Foo_Units"):
                r = call(setattr, x, n, "text")
                ctx.check(r.exc is not None, f"{n} of another object can be "
                          "assigned")
            r = call(x.add_attribute, "Foo_x", "text")
            ctx.check(r.exc is not None, "variable of another object is "
                      "accepted")
        new = gen.quiet(sf.Sofa, conv.name, version=conv.version,
                        verify=False)
        d = [n for n in O.diff_content(before[0], O.content(new))
             if "Date" not in n]
        ctx.check(not d, f"defaults of a new object changed: {d}")
        ctx.key("sharing", conv.stem)
        # reading twice
        if conv.name in ctx.cat.deprecations["GLOBAL:SOFAConventions"]:
            continue
        gen.quiet(sf.write_sofa, ctx.path("s.sofa"), b)
        x, y = [gen.quiet(sf.read_sofa, ctx.path("s.sofa"))
                for _ in range(2)]
        s = O.freeze(O.content(y))
        for n, v in O.content(x).items():
            if isinstance(v, np.ndarray) and v.dtype.kind in "if":
                v[...] = 77
        d = O.diff_content(s, O.content(y))
        ctx.check(not d, f"objects that were read share data: {d}")
    assert Slot


def returned(ctx):
    """Changing what a query returned changes nothing."""
    sf = ctx.sf
    queries = [
        ("upgrade_convention()", lambda o: o.upgrade_convention()),
        ("verify('return')", lambda o: o.verify("return")),
        ("get_dimension", lambda o: o.get_dimension("M")),
        ("names", lambda o: sf.utils._get_conventions("name")),
        ("names and versions",
         lambda o: sf.utils._get_conventions("name_version")),
        ("paths", lambda o: sf.utils._get_conventions("path")),
        ("version", lambda o: sf.version()),
        ("copy", lambda o: {n: v for n, v in O.content(o.copy()).items()
                            if "Date" not in n}),
    ]

    def damage(v):
        if isinstance(v, list):
            for x in v:
                damage(x)
            v.reverse()
            v += ["nonsense", 3]
            del v[:1]
        elif isinstance(v, dict):
            for x in v.values():
                damage(x)
            v.clear()
        elif isinstance(v, np.ndarray) and v.flags.writeable \
                and v.dtype.kind in "if":
            v[...] = 55

    def ask(o, q):
        r = call(q, o)
        return r, (type(r.exc).__name__, O.freeze({"x": r.value})["x"]
                   if not isinstance(r.value, (list, dict))
                   else repr(r.value), lines(r.out))
    for conv in ctx.cat.conventions:
        a, b = [gen.quiet(sf.Sofa, conv.name, version=conv.version,
                          verify=False) for _ in range(2)]
        for name, q in queries:
            first, was = ask(a, q)
            damage(first.value)
            for o in (a, b, a.copy()):
                second, now = ask(o, q)
                ctx.check(now == was, f"{name} returns something else after "
                          "the returned value was changed", before=was,
                          after=now, convention=conv.stem)
                damage(second.value)
            ctx.count("returned_values_changed")
        ctx.key("returned", conv.stem)


fixed = [sharing, returned]
