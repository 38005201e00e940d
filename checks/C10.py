"""C10 - comparison finds every difference and only differences."""
import re
import unicodedata

import netCDF4
import numpy as np

from vlib import gen, oracle as O
from vlib.harness import call

PROP = "C10"
RULE = ("pairs of random objects that are identical up to representation "
        "(dtype, layout, byte strings, trailing dimensions, order of the "
        "entries, file round trip) or differ in one element, sign, missing "
        "value, shape, letter, entry or type; sf.equals is called in both "
        "orders with every exclude option and judged by a comparison of the "
        "models; distinct by kind of difference, entry and option")
QUICK = (32, 44)
THOROUGH = (400, 400)
REQUIRED = ["equal", "different", "masked", "custom", "excluded_differences",
            "through_files", "monitor_evaluations"]


# ------------------------------------------------------------------ oracle
def close(a, b):
    """True, False or None (too near to the tolerance)."""
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if a == b:
        return True
    if np.isinf(a) or np.isinf(b):
        return False
    big, small = max(abs(a), abs(b)), min(abs(a), abs(b))
    if small == 0 or (a < 0) != (b < 0):
        return False
    if big < 1e-290:
        return None
    r = (big - small) / small
    if r < 9.5e-8:
        return True
    return False if r > 1.6e-7 else None


def same(ma, mb, n):
    """Is entry ``n`` the same in both models?"""
    (ta, da, _), (tb, db, _) = ma.meta(n), mb.meta(n)
    if ta != tb:
        return False
    a, b = ma.entries[n], mb.entries[n]
    if ta == "attribute":
        return str(O.stored(a)) == str(O.stored(b))
    if ta == "string":
        (sa, ia), (sb, ib) = O.str_items(a), O.str_items(b)
        return O.trim(sa) == O.trim(sb) and ia == ib
    (xa, na), (xb, nb) = (O.norm_num(x, len(d.split(", ")[0]))
                          for x, d in ((a, da), (b, db)))
    if O.trim(xa.shape) != O.trim(xb.shape):
        return False
    k = max(xa.ndim, xb.ndim)
    xa, na, xb, nb = (x.reshape(x.shape + (1,) * (k - x.ndim))
                      for x in (xa, na, xb, nb))
    if not np.array_equal(na, nb):
        return False
    res = [close(x, y) for x, y, m in zip(xa.ravel().tolist(),
                                          xb.ravel().tolist(),
                                          na.ravel().tolist()) if not m]
    if False in res:
        return False
    return None if None in res else True


def keep(m, option):
    names = set(m.entries)
    if option is None:
        return names
    option = option.upper()
    if option == "GLOBAL":
        return {n for n in names if not n.startswith("GLOBAL_")}
    if option == "DATE":
        return {n for n in names if "Date" not in n}
    return {n for n in names if m.meta(n)[0] != "attribute"}


def expected(ma, mb, option):
    a, b = keep(ma, option), keep(mb, option)
    if a != b:
        return False
    res = [same(ma, mb, n) for n in a]
    if False in res:
        return False
    return None if None in res else True


# ------------------------------------------------------------------- pairs
def relayout(rng, v, t):
    """The same value in another representation."""
    v = O.stored(v)
    if t == "attribute":
        return np.str_(v) if rng.random() < .5 else str(v)
    a = v if isinstance(v, np.ma.MaskedArray) else np.asarray(v)
    r = rng.random()
    if t == "string":
        if a.ndim and r < .25:
            a = a[..., None]
        elif a.size == 1 and r < .5:
            return O.text(a.reshape(-1)[0])
        if a.dtype.kind == "S":
            a = np.char.decode(a, "utf-8")
        if rng.random() < .4:
            a = np.char.encode(a, "utf-8")
        elif rng.random() < .3:
            a = a.astype("U400")
        return a
    if a.dtype.kind == "f" and r < .15:
        return np.asfortranarray(a) if a.ndim else a
    if a.dtype.kind == "i" and r < .5:
        return a.astype(float)
    if r < .4:
        return a.astype(a.dtype.newbyteorder())
    if r < .6 and a.ndim > 1:
        return a[..., None]
    if r < .7 and not isinstance(a, np.ma.MaskedArray):
        return np.ma.MaskedArray(a, mask=False)
    if r < .8 and a.size == 1 and not isinstance(a, np.ma.MaskedArray):
        return a.reshape(-1)[0].item()
    if r < .9 and a.dtype == np.float64 and a.size:
        with np.errstate(all="ignore"):
            return a * (1 + rng.choice([1e-9, -5e-8, 3e-8, 8e-8]))
    return a


def element(rng, v):
    """Change one element of a numeric variable."""
    v = O.stored(v)
    masked = isinstance(v, np.ma.MaskedArray)
    a = np.ma.MaskedArray(v, copy=True) if masked else np.array(v)
    shape = a.shape
    if a.size and a.dtype.kind == "i" and rng.random() < .5:
        # (integers are compared like all other numbers)
        a = a.astype(np.int64).reshape(-1)
        i = rng.randrange(a.size)
        a[i] = np.ma.getdata(a)[i] + rng.choice([1, -1, 3, 1000])
        return a.reshape(shape)
    a = a.astype(float).reshape(-1)
    if not a.size:
        return v
    i = rng.randrange(a.size)
    old = float(np.ma.getdata(a)[i])
    k = rng.randrange(9)
    with np.errstate(all="ignore"):
        new = [old * (1 + rng.choice([2e-7, 1e-6, -3e-7, 1e-3])), -old,
               np.nan, old + 1, 0.0, np.inf if old < 0 else -np.inf,
               old * 2, 1e-200, old * (1 + 5e-8)][k]
    if masked and rng.random() < .5:
        a[i] = np.ma.masked if not np.ma.getmaskarray(a)[i] else new
    elif masked and np.ma.getmaskarray(a)[i]:
        # hidden value, no difference
        np.ma.getdata(a)[i] = new
    else:
        a[i] = new
    return a.reshape(shape)


def reshape(rng, v):
    v = O.stored(v)
    a = v if isinstance(v, np.ma.MaskedArray) else np.array(v)
    k = rng.randrange(7)
    if k == 0:
        return np.reshape(a, -1)
    if k == 1 and a.ndim > 1:
        return np.swapaxes(a, 0, -1)
    if k == 2:
        return a[None]
    if k == 3 and a.ndim and a.shape[-1] > 1:
        return a[..., :-1]
    if k == 4 and a.ndim:
        # the same values along a new axis
        return np.repeat(a[..., None], 2, axis=-1)
    if k == 5 and a.size:
        # a single element instead of a constant array
        return a.reshape(-1)[0]
    if k == 6 and a.size:
        return np.full(rng.choice([(2, 1), (1, 2), (3, 3), (1, 1, 2)]),
                       np.ma.getdata(a).reshape(-1)[0])
    return a[..., None]


def change_text(rng, s):
    k = rng.randrange(7)
    return [s + " ", s.swapcase(), s[:-1], s + "\n", "x" + s,
            unicodedata.normalize("NFD", s), s.strip()][k]


def difference(rng, m, g, kinds=None):
    """Change a model in one place (may turn out to be no difference)."""
    names = list(m.entries)
    num = [n for n in names if m.meta(n)[0] == "double"]
    strs = [n for n in names if m.meta(n)[0] == "string"]
    att = [n for n in names if m.meta(n)[0] == "attribute"
           and n not in gen.LOCKED]
    dates = [n for n in att if "Date" in n]
    loc = [n for n in att if not n.startswith("GLOBAL_")]
    kind = rng.choice(["element"] * 4 + ["shape"] * 3 + ["string"] * 2 +
                      ["text"] * 2 + ["mask", "delete", "delete", "add",
                                      "add", "rename", "swap"])
    kind = rng.choice(kinds) if kinds else kind
    if kind == "element":
        n = rng.choice(num)
        m.entries[n] = element(rng, m.entries[n])
    elif kind == "shape":
        n = rng.choice(num + strs)
        m.entries[n] = reshape(rng, m.entries[n])
    elif kind == "string":
        if not strs:
            return kind, None
        n = rng.choice(strs)
        a = np.array(O.stored(m.entries[n]))
        items = [O.text(x) for x in a.reshape(-1).tolist()]
        if not items:
            return kind, None
        i = rng.randrange(len(items))
        if rng.random() < .2:
            items[i] = rng.choice(gen.STRINGS)
        else:
            items[i] = change_text(rng, items[i])
        m.entries[n] = np.array(items, dtype="U").reshape(a.shape) \
            if a.ndim else items[0]
    elif kind == "text":
        n = rng.choice(rng.choice([att, dates or att, loc or att]))
        m.entries[n] = change_text(rng, str(m.entries[n]))
    elif kind == "mask":
        n = rng.choice(num)
        v = np.ma.MaskedArray(np.array(O.stored(m.entries[n]), dtype=float),
                              copy=True)
        if not v.ndim or not v.size:
            return kind, None
        i = tuple(rng.randrange(x) for x in v.shape)
        v[i] = np.ma.masked
        m.entries[n] = v
    elif kind == "delete":
        n = rng.choice(names)
        if n in gen.LOCKED:
            return kind, None
        del m.entries[n]
    elif kind == "add":
        g.add_custom(m)
        n = list(m.entries)[-1]
    elif kind == "rename":
        if not m.custom:
            return kind, None
        n = rng.choice(sorted(m.custom))
        t = m.custom[n]
        if n not in m.entries or any(a.startswith(n + "_") for a in m.entries):
            return kind, None
        new = n + "B"
        if m.known(new):
            return kind, None
        m.custom[new] = t
        m.entries[new] = m.entries.pop(n)
        del m.custom[n]
    else:
        # a custom variable of another type
        n = "Swap"
        m.custom[n] = ("string", "IS")
        m.entries[n] = "1"
    return kind, n


def put(ctx, o, m, old):
    """Bring the object from model ``old`` to model ``m``."""
    have = O.content(o)
    for n in have:
        if n not in m.entries or n in m.custom and \
                m.custom[n] != old.custom.get(n):
            if old.known(n) and n not in old.conv.api():
                o.delete(n)
            else:
                o.protected = False
                o.delete(n)
                o.protected = True
    have = O.content(o)
    pending = sorted((n for n in m.entries if n in m.custom
                      and n not in have),
                     key=lambda n: m.custom[n][0] == "attribute")
    for n in m.entries:
        if n in pending or m.entries[n] is old.entries.get(n):
            continue
        if n in have:
            o.protected = False
            gen.put(o, n, O.cp(m.entries[n]))
            o.protected = True
    for n in pending:
        t, d = m.custom[n]
        if t == "attribute":
            gen.quiet(o.add_attribute, n, m.entries[n])
        else:
            gen.quiet(o.add_variable, n, O.cp(m.entries[n]), t, d.upper())


def compare(ctx, a, b, ma, mb, what):
    rng = ctx.rng
    full = expected(ma, mb, None)
    for option in (None, "GLOBAL", "DATE", "ATTR"):
        want = expected(ma, mb, option)
        if want is None:
            ctx.count("near_tolerance")
            continue
        spell = option
        if option and rng.random() < .3:
            spell = rng.choice([option.lower(), option.title()])
        for x, y, order in ((a, b, "a, b"), (b, a, "b, a")):
            args = {} if spell is None and rng.random() < .5 else \
                {"exclude": spell}
            verbose = rng.random() < .5
            if not verbose or rng.random() < .5:
                args["verbose"] = verbose
            r = call(ctx.sf.equals, x, y, **args)
            ctx.check(r.exc is None and isinstance(
                r.value, (bool, np.bool_)) and bool(r.value) == want,
                f"equals({order}, exclude={spell!r}) {r!r} but "
                f"the objects are {'' if want else 'not '}identical ({what})",
                warnings=r.warns, entry=[
                    (n, ma.entries.get(n, "missing"),
                     mb.entries.get(n, "missing"))
                    for n in sorted(keep(ma, option) | keep(mb, option))
                    if n not in ma.entries or n not in mb.entries
                    or not same(ma, mb, n)][:3] or what)
            messages(ctx, r, ma, mb, option, verbose, want)
        ctx.count("equal" if want else "different")
        if want and full is False:
            ctx.count("excluded_differences")
        ctx.key(what, option, want)


def messages(ctx, r, ma, mb, option, verbose, want):
    """Differences are only reported if asked to, and exactly."""
    said = "\n".join([r.out] + [str(w) for w in r.warns]).strip()
    if want or not verbose:
        ctx.check(not said, f"equals(verbose={verbose}) returns {r.value} and "
                  f"reports {said!r}")
        return
    ctx.check(said, "the objects differ but nothing is reported")
    names = keep(ma, option)
    if names != keep(mb, option):
        return
    for n in names:
        s = same(ma, mb, n)
        if s is None:
            continue
        found = re.search(rf"(?<!\w){re.escape(n)}(?!\w)", said) is not None
        ctx.check(found != s, f"{n} is {'equal' if s else 'different'} but "
                  f"{'' if found else 'not '}reported", report=said,
                  entry=[ma.entries[n], mb.entries[n], ma.meta(n)])
    ctx.count("reports")


def case(ctx):
    rng = ctx.rng
    g = gen.Gen(ctx, rng.choice(["read", "write"]))
    m = g.random()
    if m is None:
        return
    a = gen.realise(ctx.sf, m, rng)
    ctx.count("custom", int(bool(m.custom)))
    ctx.count("masked", int(any(isinstance(v, np.ma.MaskedArray)
                                for v in m.entries.values())))
    k = rng.random()
    mb = m.copy()
    what, kinds = [], None
    if k < .6:
        b = a.copy()
    elif k < .8:
        # made independently
        order = list(mb.entries)
        rng.shuffle(order)
        mb.entries = {n: mb.entries[n] for n in order}
        b = gen.realise(ctx.sf, mb, rng)
    else:
        if O.issues(m, ctx.cat, "write")[0] or gen.orphans(m):
            return
        gen.quiet(ctx.sf.write_sofa, ctx.path("a.sofa"), a)
        if rng.random() < .6:
            r = call(ctx.sf.read_sofa, ctx.path("a.sofa"), verify=False,
                     verbose=False)
        else:
            # (the dimensions of all variables are those of the file)
            r = call(ctx.sf.read_sofa_as_netcdf, ctx.path("a.sofa"))
            kinds = ["text", "delete"]
        ctx.check(r.exc is None, f"reading {r!r}")
        b = r.value
        if O.diff_semantic(m, O.content(b)):
            ctx.count("left_to_other_checks")
            return
        ctx.count("through_files")
        what.append("file")
    old = mb.copy()
    old.entries = dict(mb.entries)
    if rng.random() < .6 and kinds is None:
        for n in rng.sample(list(mb.entries), min(len(mb.entries),
                                                  rng.randint(1, 8))):
            if mb.meta(n)[1] is not None or n not in gen.LOCKED:
                mb.entries[n] = relayout(rng, mb.entries[n], mb.meta(n)[0])
        what.append("layout")
    if rng.random() < .15:
        # custom data of another type in both objects
        m.custom["Swap"] = ("double", "I")
        m.entries["Swap"] = 1
        gen.quiet(a.add_variable, "Swap", 1, "double", "I")
    if rng.random() < .75:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind, n = difference(rng, mb, g, kinds)
            what.append((kind, n))
    put(ctx, b, mb, old)
    ctx.sample = {"model": gen.describe(m), "difference": what}
    # the objects hold what the models say
    if O.diff_semantic(m, O.content(a)) or O.diff_semantic(
            mb, O.content(b)):
        ctx.count("left_to_other_checks")
        return
    compare(ctx, a, b, m, mb, tuple(what))


def every_element(ctx):
    """Each single element of each entry of an object matters."""
    sf = ctx.sf
    for stem in ("GeneralFIR-E_2.0", "SimpleFreeFieldSOS_1.0"):
        conv = ctx.cat.get(*stem.rsplit("_", 1))
        if conv is None:
            continue
        m = gen.default_model(conv)
        g = gen.Gen(ctx, masked=False, special=False, custom=False)
        for _ in range(50):
            new = g.fill(m.copy(), {"M": 3, "R": 2, "E": 1, "N": 12, "C": 3,
                                    "I": 1, "S": 0})
            if g.valid(new):
                break
            new = m
        m = new
        a = gen.realise(sf, m)
        b = a.copy()
        b.protected = False
        for n, v in O.content(a).items():
            v = O.stored(v)
            if isinstance(v, np.ndarray) and v.dtype.kind in "if":
                for i in np.ndindex(v.shape):
                    x = v.astype(float)
                    x[i] += max(1e-6 * abs(x[i]), 1e-30)
                    gen.put(b, n, x)
                    for p, q in ((a, b), (b, a)):
                        r = call(sf.equals, p, q, verbose=False)
                        ctx.check(r.exc is None and r.value is False,
                                  f"element {i} of {n} differs: {r!r}")
                    ctx.count("elements")
            elif isinstance(v, str):
                for w in (v.swapcase(), v[:-1], v + " ", " " + v, "x",
                          v + "x"):
                    if w == v:
                        continue
                    gen.put(b, n, w)
                    r = call(sf.equals, a, b, verbose=False)
                    ctx.check(r.exc is None and r.value is False,
                              f"{n} differs ({v!r}, {w!r}): {r!r}")
                for opt in ("GLOBAL", "DATE", "ATTR"):
                    want = {"GLOBAL": n.startswith("GLOBAL_"),
                            "DATE": "Date" in n,
                            "ATTR": m.meta(n)[0] == "attribute"}[opt]
                    r = call(sf.equals, b, a, verbose=False, exclude=opt)
                    ctx.check(r.exc is None and r.value is want,
                              f"{n} differs, exclude={opt}: {r!r}")
            gen.put(b, n, O.cp(getattr(a, n)))
            ctx.key(stem, n)
        r = call(sf.equals, a, b)
        ctx.check(r.value is True, f"identical objects: {r!r}")


def tolerance(ctx):
    """Near the tolerance the result does not depend on the order."""
    sf = ctx.sf
    a = gen.quiet(sf.Sofa, "GeneralTF")
    b = a.copy()
    for base in (1.0, -3.7, 1e-200, 1e250, 123.456):
        for eps in (-1e-9, 0, 1e-16, 3e-15, 5e-15, 8e-15, 1.2e-14, 2e-14,
                    1e-10):
            for sign in (1, -1):
                a.Data_Real = [base]
                b.Data_Real = [base * (1 + sign * (1e-7 + eps))]
                r, s = (call(sf.equals, x, y, verbose=False)
                        for x, y in ((a, b), (b, a)))
                ctx.check(r.exc is None and s.exc is None
                          and r.value == s.value,
                          f"equals(a, b) {r!r} but equals(b, a) {s!r}",
                          a=a.Data_Real, b=b.Data_Real)
                ctx.key(base, eps, sign)


def precision(ctx):
    """The tolerance is the same for all types of numbers."""
    sf = ctx.sf
    a = gen.quiet(sf.Sofa, "GeneralFIR")
    b = a.copy()
    for t in ("f2", "f4", "f8", ">f2", ">f4", ">f8", "f16"):
        for base in (0.085, -0.3, 1.0, 77., 6.1e-5, 1000.):
            v = np.full((1, 1, 4), base, dtype=t)
            for f, want in ((1, True), (1 + 5e-8, True), (1 - 5e-8, True),
                            (1 + 3e-7, False), (1 - 3e-7, False)):
                w = v.astype("f8") * f
                a.Data_IR, b.Data_IR = v, w
                for x, y in ((a, b), (b, a)):
                    r = call(sf.equals, x, y)
                    ctx.check(r.exc is None and bool(r.value) == want,
                              f"equals {r!r} for {t} and a relative "
                              f"difference of {f - 1:.1g}", a=v, b=w)
                ctx.key(t, base, f)


def integers(ctx):
    """... and for integers."""
    sf = ctx.sf
    a = gen.quiet(sf.Sofa, "GeneralFIR")
    b = a.copy()
    for t, base in (("i4", 2 ** 31 - 5000), ("i8", 10 ** 9), ("i8", 2 ** 40),
                    ("i4", 1000), ("i2", 300), ("i8", -10 ** 9)):
        for d in (0, 1, -1, 50, -50, 1000, -1000):
            v = np.full((1, 1, 4), base, dtype=t)
            w = v.copy()
            w[0, 0, 2] += d
            big = abs(d / base)
            want = True if big < 9e-8 else False if big > 2e-7 else None
            for u in ("i8", "f8"):
                a.Data_IR, b.Data_IR = v, w.astype(u)
                for x, y in ((a, b), (b, a)):
                    r = call(sf.equals, x, y)
                    ctx.check(r.exc is None and
                              (want is None or bool(r.value) == want),
                              f"equals {r!r} for {t} and a difference of {d}",
                              a=v, b=w)
            ctx.key("integers", t, base, d)


def other_dimensions(ctx):
    """Custom data of the same name with other dimensions."""
    sf = ctx.sf
    conv = ctx.cat.get("GeneralTF", "2.0")
    values = [3, [1, 2, 3], [[1], [2], [3]], [[1, 2, 3]],
              np.array([1, 2, 3]), np.arange(1, 4).reshape(3, 1, 1),
              np.arange(1, 4).reshape(1, 3, 1), [[1, 2], [3, 4]],
              np.arange(4), np.ones((2, 2)), np.ones(4)]
    objs = []
    for v in values:
        for dims in ("N", "MR", "TQN"):
            m = gen.default_model(conv)
            o = gen.quiet(sf.Sofa, "GeneralTF", version="2.0")
            gen.quiet(o.add_variable, "Foo", O.cp(v), "double", dims)
            m.entries = O.freeze(O.content(o))
            m.custom["Foo"] = ("double", O.custom_dims(dims))
            objs.append((o, m))
    for i, (a, ma) in enumerate(objs):
        for b, mb in objs[i:]:
            want = same(ma, mb, "Foo")
            for x, y in ((a, b), (b, a)):
                r = call(sf.equals, x, y, verbose=False, exclude="DATE")
                ctx.check(r.exc is None and bool(r.value) == want,
                          f"equals {r!r} but must be {want}",
                          a=(ma.entries["Foo"], ma.custom["Foo"]),
                          b=(mb.entries["Foo"], mb.custom["Foo"]))
            ctx.key("dims", i, want)


def excluded_names(ctx):
    """Single differences in all kinds of entries with every option."""
    sf = ctx.sf
    for stem in ("GeneralTF_2.0", "SimpleFreeFieldHRIR_1.0"):
        conv = ctx.cat.get(*stem.rsplit("_", 1))
        if conv is None:
            continue
        a = gen.quiet(sf.Sofa, conv.name, version=conv.version, verify=False)
        custom = {"GLOBAL_DateMeasured": "a", "GLOBAL_CalibrationDate": "a",
                  "GLOBAL_Update": "a", "GLOBAL_date": "a",
                  "DateOfBirth": 1, "SofaDate": "a", "Mic": 1, "Dates": 2,
                  "Mic_Date": "a", "Mic_CalibrationDate": "a",
                  "Mic_DateOfUse": "a", "Mic_Comment": "a", "dating": 3,
                  "GLOBALX": 2, "SourcePosition_Date": "a",
                  "SourcePosition_GLOBAL": "a", "GlobalThing": "a"}
        for n, v in custom.items():
            if "_" in n:
                a.add_attribute(n, v)
            else:
                gen.quiet(a.add_variable, n, v,
                          *(("double", "I") if v != "a" else
                            ("string", "IS")))
        for n in custom:
            for gone in (False, True):
                b = a.copy()
                if gone:
                    if n == "Mic":
                        continue
                    b.delete(n)
                else:
                    gen.put(b, n, "b" if custom[n] == "a" else 7)
                for opt in (None, "GLOBAL", "DATE", "ATTR"):
                    want = {None: False, "GLOBAL": n.startswith("GLOBAL_"),
                            "DATE": "Date" in n, "ATTR": "_" in n}[opt]
                    for x, y in ((a, b), (b, a)):
                        r = call(sf.equals, x, y, verbose=False, exclude=opt)
                        ctx.check(r.exc is None and r.value is want,
                                  f"{n} {'is missing' if gone else 'differs'}"
                                  f", exclude={opt}: {r!r}")
                ctx.key("excluded", stem, n, gone)


def other_types(ctx):
    """Entries with the same name and text but another type (from files)."""
    sf = ctx.sf
    conv = ctx.cat.get("GeneralTF", "2.0")
    o = gen.quiet(sf.Sofa, conv.name, version=conv.version)
    objs = []
    for name in ("GLOBAL_Foo", "SourcePosition_Foo"):
        for kind in ("attribute", "string", "double", "text"):
            p = ctx.path(f"{name}{kind}.sofa")
            gen.quiet(sf.write_sofa, p, o)
            with netCDF4.Dataset(p, "r+") as f:
                var, att = name.split("_")
                if kind == "attribute":
                    (f if var == "GLOBAL" else f[var]).setncattr(att, "1")
                elif kind == "text":
                    (f if var == "GLOBAL" else f[var]).setncattr(att, "1.0")
                elif kind == "string":
                    f.createDimension("T", 1)
                    f.createVariable(name, "S1", ("I", "T"))[:] = [[b"1"]]
                else:
                    f.createVariable(name, "f8", ("I",))[:] = 1
            objs.append((name, kind, gen.quiet(sf.read_sofa, p, verify=False,
                                               verbose=False)))
    for na, ka, a in objs:
        for nb, kb, b in objs:
            if na != nb:
                continue
            r = call(sf.equals, a, b, verbose=False)
            ctx.check(r.exc is None and r.value is (ka == kb),
                      f"equals {r!r} if {na} is {ka} and {kb}")
            ctx.key("types", na, ka, kb)


def arguments(ctx):
    a = gen.quiet(ctx.sf.Sofa, "GeneralTF")
    for bad in ("foo", "", "GLOBAL_", "date ", "ATTRS", "all"):
        r = call(ctx.sf.equals, a, a, exclude=bad)
        ctx.check(r.exc is not None, f"exclude={bad!r} {r!r}")
    for opt in ("GLOBAL", "DATE", "ATTR", "global", "Date", "attr"):
        r = call(ctx.sf.equals, a, a, exclude=opt)
        ctx.check(r.exc is None and r.value is True, f"exclude={opt!r} {r!r}")


fixed = [every_element, tolerance, precision, integers, other_dimensions, arguments,
         excluded_names, other_types]
