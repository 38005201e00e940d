"""Changes that may or may not break a rule of the standard.

Every function changes a model in place (the model predicts the verdict, the
change itself does not say whether it is valid).
"""
import datetime
import decimal
import fractions
import pathlib

import numpy as np

from . import gen, oracle as O


# ------------------------------------------------------------------ shapes
def variables(m):
    return [n for n in m.entries if m.meta(n)[1] is not None]


def is_setter(m, n):
    return any(d.islower() for d in m.meta(n)[1].split(", ")[0])


def shape(rng, nprng, m):
    """Give one variable another shape."""
    names = variables(m)
    setters = [n for n in names if is_setter(m, n)]
    n = rng.choice(setters) if setters and rng.random() < .35 \
        else rng.choice(names)
    t, dims, _ = m.meta(n)
    sizes = gen.dim_sizes(m)
    opt = rng.choice(dims.split(", "))
    s = [sizes.get(d.upper(), 1) for d in opt if d != "S"]
    kind = rng.randrange(11)
    if kind == 0 and s:
        i = rng.randrange(len(s))
        s[i] += rng.choice([1, -1, 2, s[i]])
        s[i] = max(s[i], 1)
    elif kind == 1:
        s.append(rng.choice([2, 3]))
    elif kind == 2:
        s += [1] * rng.randint(1, 3)
    elif kind == 3 and len(s) > 1:
        s.pop(rng.randrange(len(s)))
    elif kind == 4 and len(s) > 1:
        rng.shuffle(s)
    elif kind == 5:
        s = [int(np.prod(s, dtype=int))]
    elif kind == 6:
        s = []
    elif kind == 7:
        s = [1] + s
    elif kind == 8 and s:
        s[rng.randrange(len(s))] = 1
    elif kind == 9:
        s = [rng.choice([1, 2, 3, 4]) for _ in range(rng.randint(0, 4))]
    elif s:
        s[-1] = rng.choice(sorted(set(sizes.values()) - {0}))
    if s and rng.random() < .06:
        s[rng.randrange(len(s))] = 0
    elif s and int(np.prod(s, dtype=int)) < 40 and rng.random() < .06:
        i = rng.randrange(len(s))
        # (sizes that are equal if only some bits are compared)
        s[i] += rng.choice([10, 100, 256, 256, 512, 1000, 2 ** 16])
    while int(np.prod(s, dtype=int)) > 2 ** 18:
        s[s.index(max(s))] = 2
    m.entries[n] = of_shape(rng, nprng, t, tuple(s))
    return n


def of_shape(rng, nprng, t, s):
    n = int(np.prod(s, dtype=int))
    if t == "string":
        a = np.array([rng.choice(gen.STRINGS) for _ in range(n)],
                     dtype="U").reshape(s)
        if s == () and rng.random() < .7:
            return str(a)
        if rng.random() < .3:
            a = np.char.encode(a, "utf-8")
        elif rng.random() < .2 and s:
            return a.tolist()
        return a
    a = gen.random_array(rng, nprng, s)
    r = rng.random()
    if s == () and r < .7:
        return a.item()
    if r < .2 and s:
        return a.tolist()
    if r < .25 and a.size > 1:
        return gen.mask_some(rng, a)
    return a


# ------------------------------------------------------------------- types
class Thing:
    def __repr__(self):
        return "Thing"

    def __eq__(self, other):
        return type(other) is type(self)

    def __hash__(self):
        return 7


def odd_values(rng):
    """(label, value) of many Python and numpy types."""
    return rng.choice([
        ("int", 3), ("float", 1.5), ("bool", True), ("complex", 1 + 2j),
        ("str", "text"), ("bytes", b"text"), ("none", None), ("empty str", ""),
        ("np.int64", np.int64(3)), ("np.int8", np.int8(-3)),
        ("np.uint8", np.uint8(3)), ("np.uint64", np.uint64(3)),
        ("np.float16", np.float16(1.5)), ("np.float32", np.float32(1.5)),
        ("np.longdouble", np.longdouble(1.5)), ("np.bool", np.bool_(True)),
        ("np.complex64", np.complex64(1)), ("np.str", np.str_("text")),
        ("np.bytes", np.bytes_(b"text")),
        ("datetime64", np.datetime64("2021-01-01")),
        ("timedelta64", np.timedelta64(3, "s")),
        ("list of int", [1, 2, 3]), ("list of float", [[1.5, 2], [3, 4]]),
        ("list of str", ["a", "bc"]), ("list of one str", ["abc"]),
        ("list of one int", [7]), ("list of bool", [True, False]),
        ("mixed list", [1, "a"]), ("list with None", [1, None]),
        ("tuple", (1, 2, 3)), ("tuple of str", ("a", "b")), ("range",
                                                            range(3)),
        ("set", {1, 2}), ("dict", {"a": 1}), ("list of dict", [{"a": 1}]),
        ("big int", 2 ** 70), ("huge list", [2 ** 70, 1]),
        ("Decimal", decimal.Decimal("1.5")),
        ("Fraction", fractions.Fraction(1, 3)),
        ("datetime", datetime.datetime(2021, 1, 1)),
        ("path", pathlib.PurePosixPath("a/b")), ("object", Thing()),
        ("bytearray", bytearray(b"abc")), ("list of bytes", [b"a", b"bc"]),
        ("int array", np.array([1, 2, 3])),
        ("float array", np.array([[1.5, 2.0, 3.0]])),
        ("uint array", np.array([1, 2, 3], dtype=np.uint16)),
        ("bool array", np.array([True, False])),
        ("complex array", np.array([1 + 1j, 2])),
        ("object array", np.array([1, 2, 3], dtype=object)),
        ("object strings", np.array(["a", "b"], dtype=object)),
        ("U array", np.array(["a", "bc"])), ("S array",
                                             np.array([b"a", b"bc"])),
        ("U 0-d array", np.array("abc")), ("0-d array", np.array(2.5)),
        ("0-d uint", np.array(2, dtype=np.uint8)),
        ("datetime array", np.array(["2021-01-01"], dtype="M8[D]")),
        ("timedelta array", np.array([1, 2], dtype="m8[s]")),
        ("void array", np.zeros(2, dtype=[("a", "f8"), ("b", "i4")])),
        ("masked array", np.ma.MaskedArray([1., 2.], [True, False])),
        ("masked ints", np.ma.MaskedArray([1, 2], [True, False])),
        ("masked bools", np.ma.MaskedArray([True, False], [True, False])),
        ("big endian", np.array([1, 2, 3], dtype=">i2")),
        ("longdouble array", np.array([1, 2], dtype=np.longdouble)),
        ("numeric text", "1.5"), ("numeric U array", np.array(["1", "2"])),
        ("lone surrogate", "a\ud800b"), ("undecodable path", "\udcff.wav"),
        ("U array with surrogate", np.array(["a", "b\udc80"])),
        ("list with surrogate", ["a", "\udfff"]),
        ("latin bytes", np.array([b"a", b"\xe4"])),
        ("list of latin bytes", [b"\xfc", b"a"]),
        ("utf-8 bytes", np.array(["\u00e4".encode(), b"b"])),
    ])


def fit_type(rng, nprng, m, name):
    """A value of an allowed type with a fitting shape."""
    t, d, _ = m.meta(name)
    if t == "attribute":
        return rng.choice([gen.random_text(rng),
                           np.str_(gen.random_text(rng))])
    return gen.random_variable(rng, nprng, t, d, gen.dim_sizes(m))


def type_(rng, nprng, m):
    # (objects without known convention can not be judged)
    name = rng.choice([n for n in m.entries if n not in gen.LOCKED[:2]])
    strs = [n for n in m.entries if m.meta(n)[0] == "string"]
    if strs and rng.random() < .15:
        return odd_element(rng, m, rng.choice(strs))
    label, value = odd_values(rng)
    try:
        O.stored(value)
    except Exception:                        # noqa: BLE001
        return None
    m.entries[name] = value
    return name, label


def odd_element(rng, m, name):
    """One element of a string variable can not be written as text."""
    a = np.array(O.stored(m.entries[name]))
    if a.dtype.kind not in "US":
        return None
    a = a.astype("U") if a.dtype.kind == "U" else \
        np.char.decode(a, "utf-8", "replace")
    items = [O.text(x) for x in a.reshape(-1).tolist()] or ["a"]
    while len(items) < 2:
        items.append("b")
    i = rng.randrange(len(items))
    if rng.random() < .7:
        items[i] += rng.choice(["\ud800", "\udcff", "\udfffx"])
        items = np.array(items, dtype="U")
    else:
        items = [x.encode("utf-8", "surrogatepass") for x in items]
        items[i] += rng.choice([b"\xff", b"\xe4", b"\xc3", b"\xc3("])
        items = np.array(items, dtype="S")
    m.entries[name] = items.reshape(a.shape) if items.size == a.size \
        else items
    return name, "odd element"


def missing(rng, m):
    """Remove mandatory entries."""
    api = m.conv.api()
    names = [n for n in m.entries if n in api and
             O.mandatory(api[n]["flags"]) and n not in gen.LOCKED]
    for n in rng.sample(names, rng.randint(1, min(3, len(names)))):
        del m.entries[n]
    return "missing"


# ------------------------------------------------------------------- rules
def rule(rng, cat, m, mode, g):
    """Change something a rule of the rule set cares about."""
    keys = [k for k in cat.rules if O.pyname(k) in m.entries]
    key = rng.choice(keys)
    name = O.pyname(key)
    r = cat.rules[key]
    kind = rng.randrange(7)
    attr = m.meta(name)[0] == "attribute"
    api = m.conv.api()
    free = name not in gen.LOCKED[:3]
    if kind in (0, 1) and attr and free and r.get("value"):
        m.entries[name] = odd_spelling(rng, cat, name, rng.choice(r["value"]))
    elif kind == 2 and attr and free:
        m.entries[name] = rng.choice(gen.TEXTS + ["cartesian", "spherical",
                                                  "FIR", "fir", "metre"])
    elif kind == 3 and attr and free and r.get("specific"):
        v = rng.choice(sorted(r["specific"]))
        m.entries[name] = rng.choice([v, v, v.upper(), v.title()])
        if rng.random() < .6:
            for dep, ref in r["specific"][v].items():
                if dep == "_dimensions":
                    sizes = dict(gen.dim_sizes(m))
                    for d, x in ref.items():
                        sizes[d] = rng.choice(
                            list(x["value"][:3]) + [1, 2, 3, 4, 6])
                    g.fill(m, sizes)
                    continue
                dn = O.pyname(dep)
                if dn not in m.entries and dn in api and rng.random() < .8:
                    g.readd(m, dn)
                if ref and dn in m.entries and rng.random() < .8:
                    m.entries[dn] = odd_spelling(rng, cat, dn,
                                                 rng.choice(ref))
    elif kind == 4:
        deps = list(r.get("general", []))
        for s in r.get("specific", {}).values():
            deps += [d for d in s if d != "_dimensions"]
        deps = [O.pyname(d) for d in deps]
        deps = [d for d in deps if d in m.entries and d not in gen.LOCKED
                and (d in m.custom or d in api
                     and not O.mandatory(api[d]["flags"]))]
        if deps:
            d = rng.choice(deps)
            del m.entries[d]
            m.custom.pop(d, None)
    elif kind == 5:
        # normative data that is not part of this convention
        for k in rng.sample(sorted(cat.rules), min(6, len(cat.rules))):
            n = O.pyname(k)
            if n in m.entries or n in api or n.count("_") > 1:
                continue
            if n.startswith("GLOBAL_") or "_" in n and \
                    n[:n.rindex("_")] in m.entries:
                m.custom[n] = ("attribute", None)
                v = cat.rules[k].get("value")
                m.entries[n] = odd_spelling(rng, cat, n, rng.choice(v)) \
                    if v and rng.random() < .7 else gen.random_text(rng)
            elif "_" not in n and "." not in k:
                m.custom[n] = ("double", "IC")
                m.entries[n] = [1, 0, 0]
            break
    else:
        sizes = dict(gen.dim_sizes(m))
        d = rng.choice([d for d in sizes if d not in "CIS"])
        sizes[d] = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 16])
        g.fill(m, sizes)
    return key, kind


def odd_spelling(rng, cat, name, value):
    """A spelling of the value that may or may not be accepted."""
    if not isinstance(value, str):
        return value
    r = rng.random()
    if name.endswith("Units"):
        al = cat.aliases
        parts = value.split(", ")
        out = []
        for p in parts:
            same = [a for a, x in al.items() if x == p] or [p]
            out.append(rng.choice(same) if rng.random() < .8
                       else rng.choice(sorted(al)))
        sep = rng.choice([", ", ",", " ", " ,", "; ", ",  "]
                         if r < .4 else [", ", ",", " "])
        v = sep.join(out)
        if rng.random() < .12:
            v = v + rng.choice([",", " ", ", metre", " degree", "s"])
        if rng.random() < .1 and len(out) > 1:
            v = sep.join(out[:-1])
        if rng.random() < .1 and len(out) > 1:
            rng.shuffle(out)
            v = ", ".join(out)
        if rng.random() < .08 and len(out) == 3:
            v = f"{out[0]}, {out[1]} {out[2]}"
    else:
        v = value
        if r < .1:
            v = value + rng.choice([" ", "x", "s"])
        elif r < .2:
            v = value.replace(" ", "")
        elif r < .25:
            v = value[:-1]
    if rng.random() < .3:
        v = rng.choice([v.upper(), v.title(), v.capitalize(), v.lower()])
    return v


def units_case(rng, m):
    names = [n for n in m.entries if n.endswith("Units")
             and m.meta(n)[0] == "attribute"
             and isinstance(m.entries[n], str)]
    if names:
        n = rng.choice(names)
        m.entries[n] = rng.choice([str.title, str.upper, str.capitalize])(
            m.entries[n])
    return "units_case"
