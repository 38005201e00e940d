"""C21 - info describes exactly the entries of the object."""
import re

from vlib import gen, oracle as O
from vlib.harness import call
from vlib.history import History

PROP = "C21"
RULE = ("random histories (created with and without optional data, custom "
        "data, deleting, re-adding, copying, reading, upgrading, repairing) "
        "with Sofa.info called for all kinds of entries, for single entries, "
        "and for words that are neither; the printed records are parsed and "
        "compared with the definition of the convention; distinct by "
        "convention, kind and set of entries")
QUICK = (32, 24)
THOROUGH = (400, 160)
REQUIRED = ["lists_judged", "records", "single_entries", "refused_words",
            "custom_records", "upgraded", "read"]

WEIGHTS = {"query": 1, "delete": 3, "set": 2, "add": 4, "copy": 1,
           "roundtrip": 1.5, "upgrade": 1.2, "repair": .7, "create": 1,
           "realise": .6, "add_missing": 2, "fix": .6, "refused": .4}
KINDS = ["all", "mandatory", "optional", "read only", "data"]
RECORD = re.compile(r"^(\w+) : (attribute|double|string)(?: \(([^)]*)\))?"
                    r", (mandatory|optional)(, read only)?$")


def definition(m, n):
    """(type, dimensions, mandatory, read only, default, comment)"""
    t, d, fl = m.meta(n)
    e = m.conv.api().get(n)
    return (t, d.upper() if d else None, bool(O.mandatory(fl)),
            bool(O.read_only(fl)), e["default"] if e else None,
            (e["comment"] or "") if e else "")


def selected(m, kind):
    out = []
    for n in m.entries:
        t, _, mand, ro, _, _ = definition(m, n)
        if kind == "all" or (kind == "mandatory" and mand) or \
                (kind == "optional" and not mand) or \
                (kind == "read only" and ro) or \
                (kind == "data" and t != "attribute"):
            out.append(n)
    return out


def judge_list(h, s, kind):
    r = h.accepted(s, ("C21", "C09"), f"info {kind}", (), s.o.info, kind)
    m = s.m
    lines = r.out.split("\n")
    got, last = {}, None
    head = " ".join(lines[:1])
    h.check(("C21",), m.conv.name in head and m.conv.version in head,
            "info does not name the convention", out=r.out[:300])
    for x in lines[2:]:
        hit = RECORD.match(x)
        if hit:
            last = hit.group(1)
            h.check(("C21",), last not in got,
                    f"info({kind!r}) lists {last} twice")
            got[last] = [hit.group(2), hit.group(3),
                         hit.group(4) == "mandatory",
                         hit.group(5) is not None, ""]
        elif x.startswith("    ") and last:
            got[last][4] += x[4:]
    want = selected(m, kind)
    h.check(("C21",), set(got) == set(want),
            f"info({kind!r}) shows {sorted(set(got) - set(want))[:5]} and "
            f"omits {sorted(set(want) - set(got))[:5]}", origin=s.origin,
            convention=m.conv.stem)
    for n in want:
        t, d, mand, ro, _, com = definition(m, n)
        h.check(("C21",), got[n][:4] == [t, d, mand, ro] and
                got[n][4].strip() == com.strip(),
                f"info({kind!r}) describes {n} as {got[n]} but it is "
                f"{[t, d, mand, ro, com]}", origin=s.origin,
                convention=m.conv.stem)
        h.ctx.count("records")
        h.ctx.count("custom_records", n in m.custom)
    h.ctx.count("lists_judged")
    h.ctx.key(m.conv.stem, kind, tuple(sorted(want)))


def judge_single(h, s, n):
    r = h.accepted(s, ("C21", "C09"), f"info {n}", (), s.o.info, n)
    want = [k for k in s.m.entries if n in k]
    blocks, cur = {}, None
    for x in r.out.split("\n")[2:]:
        if re.fullmatch(r"\w+", x):
            h.check(("C21",), x not in blocks, f"info({n!r}) lists {x} twice")
            cur = blocks[x] = {}
        elif x.startswith("    ") and cur is not None and ": " in x:
            k, v = x.strip().split(": ", 1) if ": " in x.strip() else \
                (x.strip().rstrip(":"), "")
            cur[k] = v
    h.check(("C21",), set(blocks) == set(want),
            f"info({n!r}) shows {sorted(set(blocks) - set(want))[:5]} and "
            f"omits {sorted(set(want) - set(blocks))[:5]}", origin=s.origin)
    for k in want:
        t, d, mand, ro, default, com = definition(s.m, k)
        b = blocks[k]
        for word, v in (("type", t), ("mandatory", str(mand)),
                        ("read only", str(ro)), ("default", str(default)),
                        ("shape", str(d).upper()), ("comment", com)):
            h.check(("C21",), b.get(word, "").strip() == str(v).strip(),
                    f"info({n!r}) shows {word} {b.get(word)!r} of {k}, but "
                    f"it is {v!r}", origin=s.origin,
                    convention=s.m.conv.stem)
        h.ctx.count("records")
    h.ctx.count("single_entries")


def words(h, s):
    names = list(s.m.entries)
    n = h.rng.choice(names)
    return h.rng.choice([
        "", "foo", "mandator", "All", "readonly", "_convention", "_protected",
        "protected", "copy", n + "x", n[:-1], n.lower() + "_", "Data.IR",
        "GLOBAL:Title", "GLOBAL_", "type", "Data_", " all"])


def judge(h):
    rng = h.rng
    s = h.last if h.last in h.slots else rng.choice(h.slots)
    for kind in rng.sample(KINDS, 2):
        judge_list(h, s, kind)
    for n in rng.sample(list(s.m.entries), min(2, len(s.m.entries))):
        judge_single(h, s, n)
    w = words(h, s)
    if w not in s.m.entries:
        r = call(s.o.info, w)
        h.check(("C21",), isinstance(r.exc, ValueError),
                f"info({w!r}) {r!r}")
        h.observe(s, (), ("C09",), "refused info")
        h.ctx.count("refused_words")


def case(ctx):
    h = History(ctx, PROP, ctx.rng.choice(["read", "write"]), invalid=.1)
    h.run(WEIGHTS, ctx.rng.randint(3, 12), judge)


def every_entry(ctx):
    """All kinds and all single entries of all conventions."""
    for conv in ctx.cat.conventions:
        h = History(ctx, PROP)
        h.op_create(conv)
        s = h.slots[0]
        for kind in KINDS:
            judge_list(h, s, kind)
        for n in list(s.m.entries)[::4]:
            judge_single(h, s, n)
        r = call(s.o.info)
        a = call(s.o.info, "all")
        ctx.check(r.out == a.out, "info() differs from info('all')")


fixed = [every_entry]
