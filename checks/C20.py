"""C20 - add_missing restores exactly the missing entries."""
from vlib import gen, oracle as O
from vlib.harness import call
from vlib.history import History

PROP = "C20"
RULE = ("random histories (deleting optional and, unprotected, mandatory "
        "data, adding custom data, assigning, copying, reading, upgrading, "
        "repairing) with add_missing called in all variants at random "
        "points; the entries it adds, their values, the printed list, the "
        "report of missing data and the effect of a second call are judged "
        "by the definition of the convention; distinct by sequence of "
        "operations")
QUICK = (32, 28)
THOROUGH = (400, 190)
REQUIRED = ["missing_added", "states_observed", "read", "upgraded"]

WEIGHTS = {"add_missing": 12, "delete": 4, "set": 3, "add": 3, "copy": 1,
           "roundtrip": 1, "upgrade": .6, "repair": .6, "create": 1,
           "realise": .6, "query": .7, "fix": 1, "refused": .5}


def case(ctx):
    h = History(ctx, PROP, ctx.rng.choice(["read", "write"]), invalid=.1)
    h.run(WEIGHTS, ctx.rng.randint(3, 14))


def every_entry(ctx):
    """Each entry of each convention is missing once; also all together."""
    for conv in ctx.cat.conventions:
        names = [n for n in conv.api() if n not in gen.LOCKED[:3]]
        for mand, opt in ((True, True), (True, False), (False, True),
                          (False, False)):
            h = History(ctx, PROP)
            h.op_create(conv)
            s = h.slots[0]
            for gone in [[n] for n in names[::3 if mand and opt else 9]] + \
                    [names, names[::2]]:
                gone = [n for n in gone if n in s.m.entries]
                s.o.protected = False
                for n in gone:
                    s.o.delete(n)
                    del s.m.entries[n]
                s.o.protected = True
                s.snap = O.freeze(O.content(s.o))
                want = [n for n, e in conv.api().items()
                        if n not in s.m.entries and
                        (mand if O.mandatory(e["flags"]) else opt)]
                for n in want:
                    e = conv.api()[n]
                    nd = len(e["dimensions"].split(", ")[0]) \
                        if e["dimensions"] else 0
                    s.m.entries[n] = gen.default_value(e, nd)
                r = h.accepted(s, ("C20",), "add_missing", want,
                               s.o.add_missing, mand, opt)
                for n in want:
                    h.check(("C20",), n in r.out, f"{n} is not printed")
                ctx.count("missing_added", len(want))
                ctx.key(conv.stem, mand, opt, len(gone), gone[:1])
                if not (mand and opt):
                    h.slots = []
                    h.op_create(conv)
                    s = h.slots[0]


def after_repair(ctx):
    """add_missing as the first call after each way to get an object."""
    sf, rng = ctx.sf, ctx.rng
    for conv in ctx.cat.conventions:
        api = conv.api()
        m = gen.default_model(conv)
        for g in gen.groups(m):
            if rng.random() < .5:
                for n in g:
                    m.entries.pop(n, None)
        if gen.orphans(m):
            m = gen.default_model(conv)
        m.custom["Mine"] = ("double", "I")
        m.entries["Mine"] = 1
        path = ctx.path("in.sofa")
        if O.issues(m, ctx.cat, "write")[0]:
            continue
        gen.quiet(sf.write_sofa, path, gen.realise(sf, m))
        read = [gen.quiet(sf.read_sofa, path, verify=v, verbose=False)
                for v in (True, False)]
        makers = [lambda: gen.quiet(sf.read_sofa_as_netcdf, path),
                  lambda: read[0].copy(), lambda: read[1].copy(),
                  lambda: gen.realise(sf, m)]
        for i, make in enumerate(makers):
            for mand, opt in ((True, True), (False, True), (True, False)):
                o = make()
                before = O.freeze(O.content(o))
                r = call(o.add_missing, mand, opt)
                ctx.check(r.exc is None, f"add_missing{mand, opt} {r!r}")
                want = [n for n, e in api.items() if n not in before and (
                    mand if O.mandatory(e["flags"]) else opt)]
                after = O.content(o)
                ctx.check(sorted(set(after) - set(before)) == sorted(want),
                          f"add_missing{mand, opt} added "
                          f"{sorted(set(after) - set(before))} but "
                          f"{sorted(want)} are missing", origin=i,
                          convention=conv.stem)
                bad = [n for n in before
                       if n not in after or
                       not O.identical(before[n], after[n])]
                ctx.check(not bad, f"add_missing changed {bad}")
                ctx.check(all(n in r.out for n in want), "not printed",
                          out=r.out)
                ctx.check(bool(o.protected), "not protected")
                ctx.count("missing_added", len(want))
                ctx.key("repair", conv.stem, i, mand, opt)


fixed = [every_entry, after_repair]
