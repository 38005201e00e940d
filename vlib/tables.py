"""Convention tables: random content and random ways of writing it down.

``render`` writes the rows of a convention in one of many equivalent ways,
``expected`` is what the compiled definition has to contain.  Independent of
sofar.
"""
from . import cat as C

TEXTS = ["cartesian", "free field", "degree, degree, metre", "hertz", "SOFA",
         "a; b; c", "x = [1 2]", "it's", "'quoted'", "(c) 2021", "1.2.3",
         "http://www.sofaconventions.org/a.html", "No license, ask", "a/b",
         "M\u00fcller & S\u00f6hne", "20 \u00b0C", "5 \u20ac", "\u201cquoted\u201d",
         "1 \u2013 2", "SOFA\u2122 \u2026", "it\u2019s", "\u2022 \u0160\u0153", "-", "*", "{a}", "100 %"]
COMMENTS = TEXTS + ["12", "1.5", "[m]", "[0 1 0] is up", "see (1)", "0",
                    "two  spaces", "{''}", "; ;", "# 3", "\"x\"", "None",
                    "null", "The size of R; must be 2.", "default [0; 1]"]
BASES = ["ListenerPosition", "ReceiverPosition", "SourceView", "RoomVolume",
         "MeasurementDate", "Data.IR", "Data.Delay", "Data.SamplingRate",
         "Data.Real", "Data.Imag", "N", "Foo", "Datum", "EmitterDescriptions",
         "GlobalThing", "MyDataThing", "Subject"]
ATTRS = ["Units", "Type", "LongName", "Description", "ChannelOrdering"]
GLOBALS = ["Conventions", "Version", "SOFAConventions", "APIVersion",
           "SOFAConventionsVersion", "Title", "RoomType", "DateCreated",
           "ApplicationVersion", "Comment", "DataType", "History", "Origin",
           "Data", "DataSource"]
DIMS = ["I", "IC, MC", "rCI, rCM", "mRn", "mREn", "IR, MR", "N", "I, M",
        "eCI, ECM", "C", "RC"]
SOS2 = [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]
SOS1 = [[[0, 0, 0, 1, 0, 0]]]


def number(rng):
    return rng.choice([0, 1, 2, -1, 440, 48000, 0.5, -0.09, 0.09, 20.5, 1e-7,
                       3.25, 1000000.0, -0.0, rng.randint(-99, 99),
                       round(rng.uniform(-9, 9), 5)])


def random_rows(rng, name, version):
    """A list of entries with distinct names."""
    E = C.Entry
    rows = [E("GLOBAL:SOFAConventions", name, "rm"),
            E("GLOBAL:SOFAConventionsVersion", version, "rm")]
    for g in rng.sample(GLOBALS, rng.randint(0, 8)):
        if any(r["name"] == "GLOBAL:" + g for r in rows):
            continue
        d = rng.choice(TEXTS + ["", ""])
        if "Version" in g:
            d = rng.choice(["1.0", "2.1", "0.3", "", "10.5", "1.2.3"])
        rows.append(E("GLOBAL:" + g, d, rng.choice([None, "m", "r", "rm"])))
    for b in rng.sample(BASES, rng.randint(1, 9)):
        flags = rng.choice([None, "m", "rm"])
        kind = rng.choice(["number", "flat", "nested", "sos", "string"])
        if kind == "string":
            rows.append(E(b, [""], flags, rng.choice(["IS, MS", "RS", "MS"]),
                          "string"))
        else:
            n = rng.randint(1, 4)
            d = {"number": number(rng),
                 "flat": [number(rng) for _ in range(n)],
                 "nested": [[number(rng) for _ in range(n)]
                            for _ in range(rng.randint(2, 4))],
                 "sos": rng.choice([SOS1, SOS2])}[kind]
            if "Version" in b and kind == "number":
                d = [d]
            rows.append(E(b, d, flags, rng.choice(DIMS), "double"))
        for a in rng.sample(ATTRS, rng.randint(0, 2)):
            rows.append(E(f"{b}:{a}", rng.choice(TEXTS + [""]), flags))
    for r in rows:
        r["comment"] = rng.choice([None, "", rng.choice(COMMENTS),
                                   rng.choice(COMMENTS)])
    first, rest = rows[:1], rows[1:]
    if rng.random() < .7:
        rng.shuffle(rest)
    return first + rest if rng.random() < .5 else rest + first


def array(rng, values):
    sep = rng.choice([" ", " ", ",", ", ", "  ", " , "])
    out = sep.join(C.num(v) for v in values)
    return rng.choice([out, out, f" {out}", f"{out} ", f" {out} "])


def cell(rng, e):
    """The default value of one row."""
    d = e["default"]
    if e["type"] == "string" and d == [""]:
        return "{''}"
    if d == SOS1:
        return "permute([0 0 0 1 0 0], [3 1 2]);"
    if d == SOS2:
        return "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);"
    if isinstance(d, list) and d and isinstance(d[0], list):
        return "[" + ";".join(array(rng, x) for x in d) + "]"
    if isinstance(d, list):
        return "[" + array(rng, d) + "]"
    if isinstance(d, str):
        if "Version" in e["name"] and d.endswith(".0") and \
                d.count(".") == 1 and rng.random() < .4:
            return d[:-2]                     # written as integer
        return d
    return C.num(d)


def render(rng, entries, plain=False):
    """The table as bytes, in one of many ways that mean the same."""
    if plain:
        return "".join(
            "\t".join([e["name"], C.csv_cell(e), e["flags"] or "",
                       e["dimensions"] or "", e["type"], e["comment"] or ""])
            + "\n" for e in [_HEAD] + list(entries)).encode("windows-1252")
    eol = rng.choice(["\n", "\r\n", "mixed"])
    tabs = rng.choice([0, 0, 1, 3, "mixed"])
    blanks = rng.random() < .4
    lines = []
    for e in [_HEAD] + list(entries):
        if e is _HEAD:
            cells = ["Name", "Default", "Flags", "Dimensions", "Type",
                     "Comment"]
        else:
            cells = [e["name"], cell(rng, e), e["flags"] or "",
                     e["dimensions"] or "", e["type"], e["comment"] or ""]
            if blanks:
                cells = [rng.choice(["", " ", "  "]) + c +
                         rng.choice(["", "", " "]) for c in cells]
            if not (e["comment"] or "") and rng.random() < .6:
                cells = cells[:5]             # no comment at all
        n = rng.choice([0, 1, 2, 5]) if tabs == "mixed" else tabs
        end = rng.choice(["\n", "\r\n"]) if eol == "mixed" else eol
        lines.append("\t".join(cells) + "\t" * n + end)
    text = "".join(lines)
    if rng.random() < .2:
        text = text.rstrip("\r\n")            # no end of line at the end
    return text.encode("windows-1252")


_HEAD = C.Entry("Name", "Default", "Flags", "Dimensions", "Type", "Comment")


def problem(entries, got):
    """Why the compiled definition does not match the rows (or None)."""
    if not isinstance(got, dict):
        return f"not a table: {type(got).__name__}"
    want = {e["name"]: e for e in entries}
    if set(got) != set(want):
        return (f"missing {sorted(set(want) - set(got))}, "
                f"invented {sorted(set(got) - set(want))}")
    for n, e in want.items():
        g = got[n]
        if not same(g.get("default"), e["default"]):
            return f"default of {n} is {g.get('default')!r} but the table " \
                   f"says {e['default']!r}"
        for k in ("flags", "dimensions", "type", "comment"):
            if (g.get(k) or "") != (e[k] or "").strip():
                return f"{k} of {n} is {g.get(k)!r} but the table says " \
                       f"{e[k]!r}"
    names = list(got)
    last_global = max((i for i, n in enumerate(names)
                       if n.startswith("GLOBAL:")), default=-1)
    first_other = min((i for i, n in enumerate(names)
                       if not n.startswith("GLOBAL:")), default=len(names))
    if last_global > first_other:
        return f"global attributes are not first: {names}"
    data = [i for i, n in enumerate(names) if n.startswith("Data.")]
    rest = [i for i, n in enumerate(names) if not n.startswith("Data")]
    if data and rest and min(data) < max(rest):
        return f"data entries are not last: {names}"
    return None


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, str) or isinstance(a, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return isinstance(a, (int, float)) and not isinstance(a, bool) and a == b
