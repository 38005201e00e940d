"""C03 - consistent shapes."""
from vlib import gen, mutate, oracle as O, verdict
from vlib.harness import call

PROP = "C03"
RULE = ("valid random object with the shapes of up to three variables changed "
        "(also to other valid shapes), judged by a dimension solver; distinct "
        "by convention, all shapes and the verdict")
QUICK = (32, 90)
THOROUGH = (400, 500)
REQUIRED = ["accepted", "rejected", "setters_changed", "strings_changed"]


def other_families(err):
    return any(f != "shape" for f, _, _ in err)


def case(ctx):
    rng = ctx.rng
    mode = rng.choice(["write", "read"])
    g = gen.Gen(ctx, mode)
    m = g.random()
    if m is None:
        return
    for _ in range(8):
        new = m.copy()
        done = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            done.append(mutate.shape(rng, ctx.np, new))
        if rng.random() < .06:
            odd_dimension(rng, new)
        err, _ = O.issues(new, ctx.cat, mode)
        if not other_families(err):
            break
    else:
        ctx.count("skipped")
        return
    changes = [(n, O.cp(new.entries[n])) for n in done]
    late = rng.random() < .5 and "Odd" not in new.entries
    ctx.count("undefined_dimensions", int("Odd" in new.entries))
    o = gen.realise(ctx.sf, m if late else new, rng)
    if late:
        for n, v in changes:
            gen.put(o, n, v)
    ctx.sample = {**gen.describe(new), "changed": done, "issues": err}
    ctx.key(gen.signature(new), bool(err))
    for n in done:
        if mutate.is_setter(new, n):
            ctx.count("setters_changed")
        if new.meta(n)[0] == "string":
            ctx.count("strings_changed")
    verdict.judge(ctx, o, new, mode, ("shape",))
    # the other functions that verify come to the same verdict
    if rng.random() < .25:
        path = ctx.path("a.sofa")
        if mode == "write":
            w = call(ctx.sf.write_sofa, path, o)
            ctx.check((w.exc is not None) == bool(err),
                      f"write_sofa {w!r} but the issues are {err[:3]}")
        d = call(o.get_dimension, "R")
        ctx.check((d.exc is not None) == bool(err),
                  f"get_dimension {d!r} but the issues are {err[:3]}")
        ctx.count("other_verdicts")
    if err and rng.random() < .3:
        # repairing the data repairs the verdict
        for n in sorted({n for n, _ in changes}):
            gen.put(o, n, O.cp(m.entries[n]))
            new.entries[n] = m.entries[n]
        verdict.judge(ctx, o, new, mode, ("shape",))


def odd_dimension(rng, new):
    """Dimensions without letters are never defined."""
    t, d = rng.choice([("double", "1"), ("double", "M1"), ("double", "?"),
                       ("double", "I M"), ("string", "1S"), ("double", "-R"),
                       ("string", "M?S"), ("double", "a1")])
    new.custom["Odd"] = (t, O.custom_dims(d))
    new.entries["Odd"] = "abc" if t == "string" else 1.5


def every_axis(ctx):
    """Each axis of each variable of each convention is off by one."""
    rng, n_checked = ctx.rng, 0
    g = gen.Gen(ctx, "read")
    for conv in g.conventions():
        m = gen.default_model(conv)
        if not g.valid(m):
            continue
        o = gen.realise(ctx.sf, m)
        sizes = gen.dim_sizes(m)
        for name in mutate.variables(m):
            t, dims, _ = m.meta(name)
            for opt in dims.split(", "):
                letters = [d for d in opt if d != "S"]
                for i in range(len(letters)):
                    s = [sizes.get(d.upper(), 1) for d in letters]
                    s[i] += 1
                    new = m.copy()
                    new.entries[name] = mutate.of_shape(rng, ctx.np, t,
                                                        tuple(s))
                    err, _ = O.issues(new, ctx.cat, "read")
                    if other_families(err):
                        continue
                    gen.put(o, name, new.entries[name])
                    verdict.judge(ctx, o, new, "read", ("shape",))
                    ctx.key(conv.stem, name, opt, i)
                    n_checked += 1
            o.protected = False
            gen.put(o, name, O.cp(m.entries[name]))
            o.protected = True
    ctx.count("single_axis_changes", n_checked)


fixed = [every_axis]
