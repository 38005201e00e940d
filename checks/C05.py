"""C05 - content rules."""
from vlib import gen, mutate, oracle as O, verdict

PROP = "C05"
RULE = ("valid random object with up to three entries changed that the rule "
        "set mentions (values, spellings, units, dependencies, sizes); judged "
        "by an interpreter of the rule set; distinct by convention, rule, "
        "value and verdict; random catalogues carry random rule sets")
QUICK = (32, 90)
THOROUGH = (400, 500)
REQUIRED = ["accepted", "rejected", "rules_touched", "upper_case"]


def case(ctx):
    rng = ctx.rng
    mode = rng.choice(["read", "read", "write"])
    g = gen.Gen(ctx, mode, masked=False)
    m = g.random()
    if m is None:
        return
    if rng.random() < .1:
        # without the optional entries
        for _ in range(6):
            m = g.attempt(m, g.drop_optional)
    for _ in range(10):
        new = m.copy()
        done = [mutate.rule(rng, ctx.cat, new, mode, g)
                for _ in range(rng.choice([1, 1, 2, 3]))]
        err, _ = O.issues(new, ctx.cat, mode)
        if all(f == "rule" for f, _, _ in err):
            break
    else:
        ctx.count("skipped")
        return
    try:
        o = gen.realise(ctx.sf, new, rng)
    except ValueError as e:
        if "requires" in str(e):
            ctx.count("skipped")
            return
        raise
    ctx.count("rules_touched", len(done))
    ctx.sample = {**gen.describe(new), "rules": done, "issues": err[:3]}
    values = tuple(str(new.entries.get(O.pyname(k)))[:40] for k, _ in done)
    if any(v != v.lower() for v in values):
        ctx.count("upper_case")
    for k, kind in done:
        ctx.count(f"kind_{kind}_" + ("bad" if err else "good"))
    ctx.key(new.conv.stem, tuple(done), values, bool(err),
            tuple(sorted(e[1] for e in err)))
    verdict.judge(ctx, o, new, mode, ("rule",))


def every_rule(ctx):
    """Each rule broken on its own, starting at each default object."""
    n = 0
    g = gen.Gen(ctx, "read")
    for conv in g.conventions():
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        tried = set()
        for key, r in ctx.cat.rules.items():
            name = O.pyname(key)
            if name not in m.entries or name in gen.LOCKED[:3]:
                continue
            values = []
            if r.get("value"):
                values += [v for v in r["value"]] + \
                    [v.title() for v in r["value"]] + ["wrong", "meter",
                                                       "Degrees", ""]
            values += sorted(r.get("specific", {}))
            if m.meta(name)[0] != "attribute":
                continue
            for v in values:
                if (name, v) in tried:
                    continue
                tried.add((name, v))
                new = m.copy()
                new.entries[name] = v
                o.protected = False
                gen.put(o, name, v)
                o.protected = True
                verdict.judge(ctx, o, new, "read", ("rule",))
                ctx.key(conv.stem, name, v)
                n += 1
            o.protected = False
            gen.put(o, name, m.entries[name] if name not in gen.DYNAMIC
                    else "x")
            o.protected = True
    ctx.count("single_rules", n)


def every_unit(ctx):
    """All spellings of units."""
    g = gen.Gen(ctx, "read")
    o = gen.realise(ctx.sf, m := gen.default_model(
        ctx.cat.get("GeneralTF", "2.0")))
    al = ctx.cat.aliases
    deg = [a for a, r in al.items() if r == "degree"]
    met = [a for a, r in al.items() if r == "metre"]
    for a in deg:
        for b in deg + ["metre"]:
            for c in met + ["degree", "", "cubic metre"]:
                for s1 in (", ", ",", " ", "  ", ";"):
                    for s2 in (", ", ",", " "):
                        v = f"{a}{s1}{b}{s2}{c}"
                        new = m.copy()
                        new.entries["SourcePosition_Units"] = v
                        o.SourcePosition_Units = v
                        verdict.judge(ctx, o, new, "read", ("rule",))
                        ctx.key("unit", v)
    # the order of units, too many and too few units
    names = [n for n, v in m.entries.items() if n.endswith("_Units")
             and isinstance(v, str)]
    pool = sorted(set(al.values()))
    for conv in g.conventions():
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        names = [n for n in m.entries if n.endswith("_Units")]
        for n in names:
            ref = m.entries[n].split(", ")
            tries = [ref[::-1], ref[1:] + ref[:1], ref[:1] * len(ref),
                     ref[-1:] * len(ref), ref[:-1], ref[:1], ref + ref[-1:],
                     ref + ["degree"], ref * 2]
            tries += [ref[:i] + [u] + ref[i + 1:] for i in range(len(ref))
                      for u in pool]
            o.protected = False
            for t in tries:
                for v in (", ".join(t), ",".join(t).title()):
                    new = m.copy()
                    new.entries[n] = v
                    gen.put(o, n, v)
                    verdict.judge(ctx, o, new, "read", ("rule",))
                    ctx.key("units", conv.stem, n, v)
            gen.put(o, n, m.entries[n])


fixed = [every_rule, every_unit]
