"""C12 - upgrading follows the upgrade rules and loses nothing."""
import numpy as np

from vlib import gen, oracle as O
from vlib.harness import call

PROP = "C12"
RULE = ("random objects of every convention and version (sizes, missing "
        "optional data, custom data, one dimensional and masked data, created "
        "or read from files) are upgraded without, with invalid and with "
        "valid targets of fixed and random upgrade rules; content, convention "
        "and verdict are compared with an interpreter of the rules, the "
        "result is written and read; distinct by convention, target, rules "
        "and shapes")
QUICK = (40, 26)
THOROUGH = (500, 150)
REQUIRED = ["upgraded", "moved", "axes_moved", "removed", "added",
            "invalid_targets", "up_to_date", "listed", "custom_kept",
            "written", "deprecated_without_rules"]
BAD = ["NoSuch_1.0", "GeneralTF_99.0", "x", "", "GeneralTF", "_1.0",
       "GeneralFIR_1.0_2", "generaltf_2.0"]


def targets(cat, name, version):
    """What the rules offer for this convention and version or None."""
    rules = cat.upgrade.get(name)
    if rules is None:
        return None
    for versions, to, tid in rules["from_to"]:
        if version in versions:
            return to, rules[tid]
    return None


def upgraded(m, cat, target, rules):
    """The model after the upgrade."""
    conv = cat.get(*target.rsplit("_", 1))
    api = conv.api()
    new = O.Obj(conv)
    entries = dict(m.entries)
    meta = {n: m.meta(n) for n in entries}
    counts = {"moved": 0, "axes_moved": 0, "removed": 0}
    for n in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
              "GLOBAL_Version", "GLOBAL_DataType"):
        entries[n] = api[n]["default"]
    for src, move in rules["move"].items():
        a, b = O.pyname(src), O.pyname(move["target"])
        if a not in entries:
            continue
        v = entries.pop(a)
        t, d, _ = meta[a]
        if move["moveaxis"] is not None:
            first = d.split(", ")[0]
            shape = O.num_shape(v, len(first))
            x = np.ma.MaskedArray(np.ma.getdata(O.stored(v)),
                                  mask=np.ma.getmaskarray(O.stored(v))) \
                if isinstance(O.stored(v), np.ma.MaskedArray) \
                else np.asarray(O.stored(v))
            x = x.reshape(shape + (1,) * (max(move["moveaxis"]) + 1 -
                                          len(shape)))
            order = list(range(x.ndim))
            order.insert(move["moveaxis"][1],
                         order.pop(move["moveaxis"][0]))
            v = x.transpose(order)
            counts["axes_moved"] += 1
        entries[b] = v
        counts["moved"] += 1
    for n in rules["remove"]:
        counts["removed"] += entries.pop(O.pyname(n), None) is not None
    added = []
    for n, e in api.items():
        if n not in entries and O.mandatory(e["flags"]):
            nd = len(e["dimensions"].split(", ")[0]) if e["dimensions"] else 0
            entries[n] = gen.default_value(e, nd)
            added.append(n)
    new.entries = entries
    new.custom = {n: m.custom[n] for n in entries
                  if n not in api and n in m.custom}
    left = [n for n in entries if not new.known(n)]
    counts["added"] = len(added)
    return new, left, counts


def unchanged(ctx, o, snap, what):
    d = O.diff_content(snap, O.content(o))
    ctx.check(not d, f"{what} changed {d[:4]}")
    ctx.check(bool(o.protected), f"not protected after {what}")


def adopt(ctx, m, conv_new):
    """Custom data that the target convention defines as well."""
    api = conv_new.api()
    rng = ctx.rng
    names = [n for n in api if not m.known(n) and n.startswith("GLOBAL_")
             and not O.read_only(api[n]["flags"])]
    for n in names:
        if rng.random() < .5:
            m.custom[n] = ("attribute", None)
            m.entries[n] = api[n]["default"] or "text"
            ctx.count("adopted")
    names = [n for n in api if not m.known(n) and "_" not in n
             and api[n]["type"] != "attribute"
             and not any(d.islower() for d in api[n]["dimensions"])]
    for n in names:
        if rng.random() < .4:
            e = api[n]
            d = e["dimensions"].split(", ")[0]
            m.custom[n] = (e["type"], d)
            m.entries[n] = gen.default_value(e, len(d))
            ctx.count("adopted")


def case(ctx):
    rng, cat, sf = ctx.rng, ctx.cat, ctx.sf
    g = gen.Gen(ctx, "read")
    old = [c for c in cat.conventions if targets(cat, c.name, c.version)]
    conv = rng.choice(old) if old and rng.random() < .8 else \
        rng.choice(cat.conventions)
    m = g.random(conv)
    if m is None or gen.orphans(m):
        return
    up = targets(cat, conv.name, conv.version)
    if up is not None and rng.random() < .25:
        new = m.copy()
        adopt(ctx, new, cat.get(*up[0][0].rsplit("_", 1)))
        if not O.issues(new, cat, "read")[0] and not gen.orphans(new):
            m = new
    if up is not None and rng.random() < .4:
        # one dimensional data is a row
        for n in m.entries:
            t, d, _ = m.meta(n)
            v = O.stored(m.entries[n])
            if t == "double" and isinstance(v, np.ndarray) and \
                    np.ndim(v) == 2 and len(v) == 1 and \
                    not any(x.islower() for x in d.split(",")[0]):
                m.entries[n] = v[0]
    if O.issues(m, cat, "read")[0]:
        return
    o = gen.realise(sf, m, rng)
    if rng.random() < .2 and not O.issues(m, cat, "write")[0]:
        gen.quiet(sf.write_sofa, ctx.path("in"), o)
        o = gen.quiet(sf.read_sofa, ctx.path("in"), verbose=False,
                      verify=False)
    elif rng.random() < .2:
        o = o.copy()
    if O.diff_semantic(m, O.content(o)):
        ctx.count("left_to_other_checks")
        return
    snap = O.freeze(O.content(o))
    # ---- without target
    r = call(o.upgrade_convention)
    ctx.check(r.exc is None, f"upgrade_convention() {r!r}")
    want = up[0] if up else []
    ctx.check(isinstance(r.value, (list, tuple)) and
              list(r.value) == list(want),
              f"upgrade_convention() returned {r.value} but the rules list "
              f"{want} for {conv.stem}")
    unchanged(ctx, o, snap, "upgrade_convention()")
    ctx.count("listed" if up else "up_to_date")
    if not up and conv.name in cat.deprecations["GLOBAL:SOFAConventions"]:
        ctx.count("without_rules")
    # ---- invalid targets
    others = [c.stem for c in cat.conventions]
    for bad in rng.sample(BAD + others, 2):
        if bad in want:
            continue
        r = call(o.upgrade_convention, bad)
        ctx.check(r.exc is None or isinstance(r.exc, ValueError),
                  f"upgrade_convention({bad!r}) {r!r}")
        unchanged(ctx, o, snap, f"upgrade_convention({bad!r})")
        ctx.count("invalid_targets")
    if not up:
        ctx.key(conv.stem, "no upgrade")
        return
    # ---- valid target
    target = rng.choice(want)
    new, left, counts = upgraded(m, cat, target, up[1])
    if left:
        # rules are incomplete
        ctx.count("incomplete_rules")
        return
    verify = rng.choice([None, False, False, True, "auto"])
    args = (target,) if verify is None else (target, verify)
    twin = o.copy()
    r = call(o.upgrade_convention, *args)
    err = O.issues(new, cat, "write")[0]
    auto = verify in (None, "auto")
    verified = verify is True or auto and float(new.conv.version) >= 1
    ctx.check((r.exc is None) == (not (err and verified)) and
              (r.exc is None or isinstance(r.exc, ValueError)),
              f"upgrade_convention{args} {r!r}", issues=err[:4],
              model=gen.describe(new))
    now = O.content(o)
    if new.conv.name == m.conv.name:
        same = {}
    d = O.diff_semantic(new, now)
    ctx.check(not d, f"{conv.stem} upgraded to {target} differs from the "
              f"rules: {d[:4]}", rules=up[1], before=gen.describe(m))
    # all other entries keep exactly the same value
    same = [n for n in now if n in snap and n in new.entries
            and new.entries[n] is m.entries.get(n)]
    bad = [n for n in same if not O.identical(snap[n], now[n])]
    ctx.check(not bad, f"the upgrade changed {bad[:4]}")
    ctx.check(bool(o.protected), "the object is not protected")
    unchanged(ctx, twin, snap, "upgrading a copy")
    for mode in ("read", "write"):
        e = O.issues(new, cat, mode)[0]
        v = call(o.verify, mode=mode)
        ctx.check((v.exc is None) == (not e), f"verify({mode}) {v!r} after "
                  "the upgrade", issues=e, model=gen.describe(new))
    ctx.check(not O.diff_semantic(new, O.content(o)), "verify changed data")
    # it is up to date now or offers the next version
    nxt = targets(cat, new.conv.name, new.conv.version)
    r = call(o.upgrade_convention)
    ctx.check(list(r.value or []) == list(nxt[0] if nxt else []),
              f"upgraded object can be upgraded to {r.value} but the rules "
              f"list {nxt}")
    if not err and not gen.orphans(new):
        w = call(sf.write_sofa, ctx.path("out.sofa"), o)
        ctx.check(w.exc is None, f"write_sofa {w!r} after the upgrade")
        back = call(sf.read_sofa, ctx.path("out.sofa"), verbose=False)
        ctx.check(back.exc is None, f"read_sofa {back!r} after the upgrade")
        d = O.diff_semantic(new, O.content(back.value))
        ctx.check(not d, f"content differs after writing the upgraded "
                  f"object: {d[:4]}")
        ctx.count("written")
    ctx.count("upgraded")
    ctx.count("custom_kept", len(new.custom))
    for k, n in counts.items():
        ctx.count(k, n)
    ctx.sample = {"from": gen.describe(m), "to": target, "rules": up[1]}
    ctx.key(conv.stem, target, repr(up[1]), gen.signature(m)[1][:6])


def every_rule(ctx):
    """Default object of all conventions, all targets."""
    cat = ctx.cat
    for conv in cat.conventions:
        up = targets(cat, conv.name, conv.version)
        for target in (up[0] if up else []):
            for mandatory in (False, True):
                m = gen.default_model(conv, mandatory)
                o = gen.realise(ctx.sf, m)
                new, left, _ = upgraded(m, cat, target, up[1])
                if left:
                    continue
                r = call(o.upgrade_convention, target, verify=False)
                ctx.check(r.exc is None, f"{conv.stem} to {target} {r!r}")
                d = O.diff_semantic(new, O.content(o))
                ctx.check(not d, f"{conv.stem} to {target}: {d[:4]}")
                ctx.key(conv.stem, target, mandatory)


def without_rules(ctx):
    """Deprecated or old data without upgrade rules stays as it is."""
    for conv in ctx.cat.conventions:
        if targets(ctx.cat, conv.name, conv.version):
            continue
        m = gen.default_model(conv)
        o = gen.realise(ctx.sf, m)
        snap = O.freeze(O.content(o))
        for args in ((), ("GeneralTF_2.0",), ("x",), (conv.stem,)):
            r = call(o.upgrade_convention, *args)
            ctx.check(r.exc is None and not r.value,
                      f"{conv.stem}: upgrade_convention{args} {r!r}")
            unchanged(ctx, o, snap, f"upgrade_convention{args}")
        ctx.count("deprecated_without_rules", int(
            conv.name in ctx.cat.deprecations["GLOBAL:SOFAConventions"]))
        ctx.key(conv.stem, "no rules")


fixed = [without_rules, every_rule]
