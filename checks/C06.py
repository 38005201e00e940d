"""C06 - verdicts agree across modes and ways of reporting issues."""
from vlib import gen, mutate, oracle as O, verdict
from vlib.harness import call

PROP = "C06"
RULE = ("random object with 0 to 4 changes of all families (shape, type, "
        "missing, rules, names, case of units, deprecated and preliminary "
        "conventions); 'raise', 'print', 'return' and 'ignore' in both modes "
        "are called on copies, related to each other and to the reference "
        "verifier; distinct by convention, families of issues and entries")
QUICK = (32, 34)
THOROUGH = (400, 220)
REQUIRED = ["accepted", "rejected", "warned", "missing_added", "ignored",
            "write_only", "issues_returned"]
HEAD = {"ERRORS", "WARNINGS", "------", "--------"}


def lines(*texts):
    out = []
    for t in texts:
        for x in (t or "").split("\n"):
            x = " ".join(x.split())
            if x and x not in HEAD:
                out.append(x)
    return sorted(out)


def with_defaults(m):
    new = m.copy()
    added = []
    for n, e in m.conv.api().items():
        if O.mandatory(e["flags"]) and n not in m.entries:
            new.entries[n] = e["default"]
            added.append(n)
    return new, added


def judge(ctx, make, m, mode):
    err, warn = O.issues(m, ctx.cat, mode)
    full, added = with_defaults(m)
    err2, warn2 = O.issues(full, ctx.cat, mode)
    typed = any(f == "type" for f, _, _ in err2)

    # raise
    o = make()
    kw = {"mode": mode}
    if mode == "write" and ctx.rng.random() < .2:
        kw = {}
    raised = call(o.verify, **kw) if ctx.rng.random() < .5 else \
        call(o.verify, "raise", **kw)
    ctx.check(raised.exc is None or isinstance(raised.exc, ValueError),
              f"verify {raised!r}")
    ctx.check((raised.exc is not None) == bool(err),
              f"verify(mode={mode}) {raised!r} but the issues are {err[:4]}",
              model=gen.describe(m))
    ctx.check(raised.value is None, "'raise' returned something")
    early = any(f in ("missing", "type") for f, _, _ in err)
    want = bool(warn) and not early
    ctx.check(bool(raised.warns) == want,
              f"warnings {raised.warns} but expected {warn if want else []}")
    ctx.check(len(raised.warns) <= 1 and raised.out == "",
              f"'raise' printed {raised.out[:200]!r} or warned several times")
    E = str(raised.exc) if raised.exc is not None else None
    W = raised.warns[0] if raised.warns else None
    for fam, name, _ in (warn if want else []):
        ctx.check(named_value(W, fam, full), f"warning does not name {fam}",
                  warning=W)
    diff = [] if err else O.diff_semantic(m, O.content(o))
    ctx.check(not diff, f"'raise' changed the object: {diff[:3]}")

    # return
    o = make()
    ret = call(o.verify, issue_handling="return", mode=mode)
    ctx.check(ret.exc is None and ret.out == "" and not ret.warns,
              f"'return' {ret!r} printed {ret.out[:200]!r} warned {ret.warns}")
    R = ret.value
    ctx.check(R is None or isinstance(R, str), f"'return' {ret!r}")
    expect = bool(err2) or bool(warn2) or bool(added)
    ctx.check((R is not None) == expect,
              f"'return' gave {R!r}, issues are {err2[:3]} {warn2} {added}")
    after = O.content(o)
    ctx.check(set(after) == set(full.entries),
              "'return' did not add exactly the missing mandatory data: "
              f"{sorted(set(after) ^ set(full.entries))}")
    for n in added:
        t, d, _ = full.meta(n)
        ctx.check(O.same_value(full.entries[n], after[n], t, d),
                  f"{n} was not added with its default")
    if not added:
        ctx.check(lines(R) == lines(E, W), "'return' and 'raise' differ",
                  returned=R, error=E, warning=W)
    else:
        ctx.count("missing_added", len(added))
        again = call(o.verify, mode=mode)
        E2 = str(again.exc) if again.exc is not None else None
        W2 = again.warns[0] if again.warns else None
        ctx.check((E2 is not None) == bool(err2),
                  f"after adding defaults verify {again!r}, expected {err2}")
        rest = lines(R)
        for x in lines(E2, W2):
            ctx.check(x in rest, f"'return' does not contain {x!r}",
                      returned=R)
            rest.remove(x)
        if not typed:
            for n in added:
                ctx.check(verdict.named("\n".join(rest), n),
                          f"missing {n} is not reported", returned=R)

    # print
    o = make()
    pr = call(o.verify, issue_handling="print", mode=mode)
    ctx.check(pr.exc is None and not pr.warns and pr.value is None,
              f"'print' {pr!r} {pr.warns}")
    ctx.check(lines(pr.out) == lines(R), "'print' and 'return' differ",
              printed=pr.out, returned=R)

    # ignore
    o = make()
    ig = call(o.verify, issue_handling="ignore", mode=mode)
    ctx.check(ig.exc is None and ig.value is None and ig.out == ""
              and not ig.warns, f"'ignore' {ig!r} {ig.out!r} {ig.warns}")
    ctx.check(set(O.content(o)) == set(full.entries),
              "'ignore' did not add exactly the missing mandatory data")
    ctx.count("ignored")
    ctx.count("rejected" if err else "accepted")
    ctx.count("warned", int(want))
    if mode == "write" and (ctx.rng.random() < .4 or added):
        # inspect reports the same issues (in write mode)
        inspect(ctx, make, E, W, R)
    return err


def inspect(ctx, make, E, W, R):
    how = ctx.rng.choice(["raise", "return", "return", "ignore", "print"])
    r = call(make().inspect, issue_handling=how)
    ctx.count("inspected")
    if how == "raise":
        ctx.check((r.exc is not None) == (E is not None)
                  and lines(*(r.warns)) == lines(W)
                  and (E is None or lines(str(r.exc)) == lines(E)),
                  f"inspect('raise') {r!r} but the error is {E!r}")
        ctx.check(r.exc is None or r.out == "", "inspect printed an invalid "
                  f"object although it raised: {r.out[:200]!r}")
        return
    ctx.check(r.exc is None and not r.warns, f"inspect('{how}') {r!r}")
    got = lines(r.out)
    if how == "return":
        ctx.count("issues_returned", int(r.value is not None))
        ctx.check(lines(r.value) == lines(R) and
                  (r.value is None) == (R is None),
                  "inspect does not return the issues", returned=r.value,
                  issues=R)
    else:
        ctx.check(r.value is None, f"inspect('{how}') {r!r}")
    if how == "print":
        ctx.check(all(x in got for x in lines(R)),
                  "inspect does not print the issues", printed=r.out)
    else:
        ctx.check(not any("Detected " in x and x in lines(R) for x in got),
                  f"inspect('{how}') prints the issues",
                  printed=r.out)


def named_value(W, fam, m):
    if fam == "preliminary":
        return m.conv.version in W
    return m.conv.name in W


def case(ctx):
    rng = ctx.rng
    g = gen.Gen(ctx, "read")
    m = g.random()
    if m is None:
        return
    base = m
    m = m.copy()
    done = []
    kinds = [rng.choice([3, 4, 5, 6, 0, 1, 2])
             for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
    # (changes of shape and type and missing data last)
    for kind in sorted(kinds, key=[3, 4, 5, 6, 0, 1, 2].index):
        if kind == 0:
            done.append(mutate.shape(rng, ctx.np, m))
        elif kind == 1:
            done.append(mutate.type_(rng, ctx.np, m))
        elif kind == 2:
            done.append(mutate.missing(rng, m))
        elif kind in (3, 4):
            done.append(mutate.rule(rng, ctx.cat, m, "read", g))
        elif kind == 5:
            done.append(mutate.units_case(rng, m))
        else:
            m = g.add_custom(m)
    try:
        o = gen.realise(ctx.sf, m, rng)
    except (ValueError, TypeError, AttributeError) as e:
        # additions that are refused
        ctx.count("not_realised")
        ctx.check(len(m.custom) > len(base.custom),
                  f"object can not be created: {e!r}")
        return
    ctx.sample = {"changes": done, **gen.describe(m)}
    ew = judge(ctx, o.copy, m, "write")
    er = judge(ctx, o.copy, m, "read")
    fw, fr = {e[:2] for e in ew}, {e[:2] for e in er}
    early = any(f in ("missing", "type") for f, _ in fw)
    ctx.check(fr <= fw and (early or all(
        f in ("case", "deprecated") for f, _ in fw - fr)), "modes")
    ctx.count("write_only", int(bool(ew) and not er))
    ctx.key(m.conv.stem, sorted(fw), sorted(fr))


def defaults(ctx):
    """Default objects of all conventions including deprecated ones."""
    for conv in ctx.cat.conventions:
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        for mode in ("write", "read"):
            judge(ctx, o.copy, m, mode)
        ctx.key(conv.stem)


def every_unit_case(ctx):
    """Upper case letters in each single unit, also of custom data."""
    sf = ctx.sf
    for conv in ctx.cat.conventions:
        m = gen.default_model(conv)
        if O.issues(m, ctx.cat, "read")[0]:
            continue
        m.custom["Mic"] = ("double", "I")
        m.entries["Mic"] = 1
        m.custom["MyUnits"] = ("string", "IS")
        m.entries["MyUnits"] = "Upper Case"
        free = {"Mic_Units": "pascal", "GLOBAL_Units": "si",
                "Mic_UnitsText": "A", "MyUnits_Comment": "B",
                "Mic_TheUnits": "c"}
        for n, v in free.items():
            m.custom[n] = ("attribute", None)
            m.entries[n] = v
        names = [n for n in m.entries if "Units" in n]
        o = gen.realise(sf, m)
        for n in names:
            v = m.entries[n]
            for w in {v.upper(), v.title()}:
                new = m.copy()
                new.entries[n] = w
                o.protected = False
                gen.put(o, n, w)
                o.protected = True
                for mode in ("write", "read"):
                    judge(ctx, o.copy, new, mode)
                ctx.key("case", conv.stem, n)
            o.protected = False
            gen.put(o, n, v)
            o.protected = True


def wrong_argument(ctx):
    """Nothing is specified for unknown modes; the defaults are."""
    o = gen.quiet(ctx.sf.Sofa, "GeneralTF")
    o.GLOBAL_Title = "x"
    a = call(o.verify)
    ctx.check(a.exc is None and a.value is None, f"verify {a!r}")


fixed = [defaults, wrong_argument, every_unit_case]
