"""Random SOFA objects (as models) and their realisation with sofar."""
import warnings

import numpy as np

from . import oracle as O

DYNAMIC = ["GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
           "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
           "GLOBAL_ApplicationVersion"]
DYN = "".join(["set by ", "sofar"])        # compared by identity
LOCKED = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
          "GLOBAL_Version", "GLOBAL_Conventions", "GLOBAL_DataType")

TEXTS = ["free", "some text", "", " leading", "trailing ", "two\nlines",
         "Größe µ°", "日本語テキスト", "emoji 🎧", "a" * 300, "1.0", "None",
         "tab\there", "quote \" ' \\ back", "é", "NaN", "{}", "<a&b>", "0",
         "- GLOBAL_Title is broken", "x: y, z"]
STRINGS = ["a", "ab", "", "longer string", "ümläut", "日本", "x y", "🎧",
           "0", "trail ", "nan", "b" * 40, "é" * 5]
FLOATS = [0.0, -0.0, 1.0, -1.5, np.nan, np.inf, -np.inf, 5e-324, 1e-310,
          1.7976931348623157e308, 0.1, 1 / 3, 2.0 ** 53 + 2, 1e-9, 440,
          -1e-7, 123456789.123456789]
INTS = [0, 1, -1, 2, 127, -128, 255, 32767, 2 ** 31 - 1, -2 ** 40, 7]

VAR_NAMES = ["Temperature", "MyVar", "Units", "MyUnits", "N2", "NN", "Date",
             "DateOfBirth", "Mic", "SourcePos", "SourcePositionX", "DataX",
             "x", "Type", "IR", "Comment2", "ÄVar", "v1", "ReceiverViewX",
             "M", "SofaDate", "Data"]
ATTR_NAMES = ["Units", "Type", "Comment", "LongName", "Date", "name", "shape",
              "x", "ChunkSizes", "dtype", "missing", "Ä", "group"]
GLOBAL_NAMES = ["Foo", "DateMeasured", "Lab", "variables", "dimensions",
                "title", "path", "x", "Units", "file", "name"]
CUSTOM_LETTERS = "TQKVABDFGHJLOPUWXYZ"


# --------------------------------------------------------------- defaults
def default_value(e, ndim):
    d = e["default"]
    if isinstance(d, list):
        a = np.array(d)
        if ndim == 1:
            return a.reshape(-1)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        return a.reshape(a.shape + (1,) * max(0, ndim - a.ndim))
    return d


def default_model(conv, mandatory=False):
    m = O.Obj(conv)
    for name, e in conv.api().items():
        if mandatory and not O.mandatory(e["flags"]):
            continue
        ndim = len(e["dimensions"].split(", ")[0]) if e["dimensions"] else 0
        m.entries[name] = default_value(e, ndim)
    for name in DYNAMIC:
        m.entries[name] = DYN
    return m


# ------------------------------------------------------------------ values
def sample_float(rng):
    r = rng.random()
    if r < .5:
        return rng.uniform(-10, 10)
    if r < .8:
        return rng.choice(FLOATS)
    return rng.choice([1, -1]) * 10.0 ** rng.uniform(-300, 300)


def random_array(rng, nprng, shape, special=True):
    """Numeric array of exactly this shape."""
    n = int(np.prod(shape, dtype=int))
    kind = rng.random()
    if kind < .25:
        a = np.array([rng.choice(INTS) for _ in range(n)], dtype=np.int64)
        if rng.random() < .4:
            t = rng.choice([np.int32, np.int16, np.int8])
            i = np.iinfo(t)
            a = np.array([x if i.min <= x <= i.max and rng.random() < .6
                          else rng.randint(i.min, i.max)
                          for x in a.tolist()], dtype=t)
    elif n > 64 or not special or rng.random() < .4:
        a = nprng.standard_normal(n)
        if n and special and rng.random() < .5:
            a[rng.randrange(n)] = rng.choice(FLOATS)
    else:
        a = np.array([sample_float(rng) for _ in range(n)], dtype=float)
    if a.dtype.kind == "f" and rng.random() < .15:
        with np.errstate(all="ignore"):
            a = a.astype(rng.choice([np.float32, np.float16]))
    a = a.reshape(shape)
    r = rng.random()
    if a.ndim and r < .08:
        a = np.asfortranarray(a)
    elif a.ndim and r < .14:
        a = a[::-1]
    elif a.ndim and r < .20:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif r < .24:
        a = a.astype(a.dtype.newbyteorder(">"))
    elif r < .28:
        a = a.copy()
        a.flags.writeable = False
    return a


def drop_trailing(rng, a, ndim):
    """Randomly discard trailing singleton dimensions (keeps 2)."""
    while a.ndim > 2 and a.shape[-1] == 1 and rng.random() < .6:
        a = a[..., 0]
    if a.size == 1 and rng.random() < .5:
        return a.reshape(-1)[0]
    return a


def represent(rng, a, ndim, setter):
    """One of the ways to pass numeric data to sofar."""
    r = rng.random()
    if a.size == 1:
        v = a.reshape(-1)[0]
        k = rng.randrange(5)
        if k == 0:
            return v.item()
        if k == 1:
            return [v.item()]
        if k == 2:
            return np.array(v)
        if k == 3:
            return v
        return a
    if ndim == 1 and r < .3:
        return a.reshape(1, -1) if rng.random() < .5 else a.tolist()
    if r < .5:
        return a
    while a.ndim > 2 and a.shape[-1] == 1 and rng.random() < .7:
        a = a[..., 0]
    if not setter and a.ndim == 2 and a.shape[0] == 1 and r < .7:
        a = a[0]
    elif not setter and a.ndim == 3 and a.shape[0] == a.shape[2] == 1 \
            and r < .7:
        a = a[0, :, 0]
    elif a.ndim == 2 and a.shape[0] == 1 and r < .8:
        return a[0].tolist()
    if r > .85 and a.ndim >= 2:
        return a.tolist()
    if .8 < r < .85 and ndim > 1:
        return a[..., None]
    return a


def mask_some(rng, a):
    a = np.ma.MaskedArray(np.array(a, dtype=float))
    m = np.zeros(a.shape, bool)
    flat = m.reshape(-1)
    for _ in range(rng.randint(1, max(1, a.size // 2))):
        flat[rng.randrange(a.size)] = True
    return np.ma.MaskedArray(np.array(a.data), mask=m)


def shape_for(rng, dim, sizes):
    return tuple(sizes[d.upper()] for d in dim if d != "S")


def random_variable(rng, nprng, type_, dims, sizes, masked=True,
                    special=True):
    """A value whose shape fits one of the dimension combinations."""
    opts = dims.split(", ")
    dim = rng.choice(opts)
    setter = any(d.islower() for d in opts[0])
    if setter:
        dim = opts[0]
    shape = shape_for(rng, dim, sizes)
    if type_ == "string":
        n = int(np.prod(shape, dtype=int))
        items = [rng.choice(STRINGS) for _ in range(n)]
        a = np.array(items, dtype="U").reshape(shape)
        r = rng.random()
        if a.size == 1 and r < .4:
            return items[0]
        if r < .6 and a.size:
            return np.char.encode(a, "utf-8")
        if a.size == 1 and r < .75:
            return [items[0]]
        return a
    a = random_array(rng, nprng, shape, special)
    if masked and a.size > 1 and rng.random() < .06:
        return mask_some(rng, a)
    return represent(rng, a, len(opts[0]), setter)


def random_text(rng):
    return rng.choice(TEXTS)


# ------------------------------------------------------------------ models
def dim_sizes(m):
    return O.dimensions(m)[0]


def groups(m):
    """Variables and optional entries that can be deleted together."""
    api = m.conv.api()
    out = []
    for name in m.entries:
        t, d, f = m.meta(name)
        if name in m.custom or O.mandatory(f):
            continue
        if t != "attribute":
            atts = [a for a in m.entries if a.startswith(name + "_")
                    and m.meta(a)[0] == "attribute"
                    and "_" not in a[len(name) + 1:]]
            if all(not O.mandatory(m.meta(a)[2]) for a in atts):
                out.append([name] + atts)
        else:
            out.append([name])
    return [g for g in out if not set(g) & set(DYNAMIC) and g[0] in api]


class Gen:
    def __init__(self, ctx, mode="write", masked=True, special=True,
                 maxsize=5, custom=True, large=.035):
        self.ctx, self.rng, self.np = ctx, ctx.rng, ctx.np
        self.cat, self.mode = ctx.cat, mode
        self.masked, self.special = masked, special
        self.maxsize, self.custom = maxsize, custom
        self.large = large

    # ---- conventions
    def conventions(self):
        out = self.cat.conventions
        if self.mode == "write":
            dep = self.cat.deprecations["GLOBAL:SOFAConventions"]
            out = [c for c in out if c.name not in dep]
        return out

    def convention(self):
        return self.rng.choice(sorted(self.conventions(),
                                      key=lambda c: c.stem))

    def valid(self, m):
        err, _ = O.issues(m, self.cat, self.mode)
        if err:
            return False
        # attributes of variables that are not part of the object are lost
        return not orphans(m)

    # ---- toggles
    def resize(self, m):
        rng = self.rng
        sizes = dict(dim_sizes(m))
        dims = [d for d in sizes if d not in "CIS"]
        for d in rng.sample(dims, rng.randint(1, len(dims))):
            sizes[d] = self.size(d)
        return self.fill(m, sizes)

    def size(self, d):
        rng = self.rng
        pool = [1, 2, 3, 4, 4, 5, 6, 9, 12]
        n = rng.choice(pool)
        if d == "N" and rng.random() < .3:
            n = rng.choice([8, 16, 18, 24])
        return n if n <= self.maxsize or rng.random() < .3 else 2 + n % 3

    def resize_one(self, m, d):
        sizes = dict(dim_sizes(m))
        sizes[d] = self.size(d)
        return self.fill(m, sizes)

    def fill(self, m, sizes):
        for name in list(m.entries):
            t, d, _ = m.meta(name)
            if d is None:
                continue
            m.entries[name] = random_variable(
                self.rng, self.np, t, d, sizes, self.masked, self.special)
        return m

    def one_value(self, m):
        rng = self.rng
        names = [n for n in m.entries if m.meta(n)[1] is not None]
        name = rng.choice(names)
        t, d, _ = m.meta(name)
        m.entries[name] = random_variable(
            rng, self.np, t, d, dim_sizes(m), self.masked, self.special)
        return m

    def drop_optional(self, m):
        g = groups(m)
        if g:
            for n in self.rng.choice(g):
                m.entries.pop(n, None)
                m.custom.pop(n, None)
        return m

    def settable(self, m):
        return [n for n in m.entries if m.meta(n)[0] == "attribute"
                and not O.read_only(m.meta(n)[2])
                and n not in LOCKED]

    def set_text(self, m):
        rng = self.rng
        name = rng.choice(self.settable(m))
        rule = next((r for k, r in self.cat.rules.items()
                     if O.pyname(k) == name), {})
        if name.endswith("Units") and m.meta(name)[0] == "attribute":
            ref = (rule.get("value") or [m.entries[name]])[0]
            m.entries[name] = self.units(ref)
        elif rule.get("value"):
            v = rng.choice(rule["value"])
            if rng.random() < .3:
                v = rng.choice([v.upper(), v.title(), v.capitalize()])
            m.entries[name] = v
            # entries that are required together with this value
            for dep, ref in rule.get("specific", {}).get(
                    v.lower(), {}).items():
                dn = O.pyname(dep)
                if dep == "_dimensions":
                    sizes = dict(dim_sizes(m))
                    for d, r in ref.items():
                        sizes[d] = rng.choice(r["value"][:3])
                    self.fill(m, sizes)
                    continue
                e = m.conv.api().get(dn)
                if dn not in m.entries and e is not None:
                    self.readd(m, dn)
                if ref is not None and dn in m.entries:
                    m.entries[dn] = self.units(ref[0]) if \
                        dn.endswith("Units") else rng.choice(ref)
        else:
            m.entries[name] = random_text(rng)
        return m

    def readd(self, m, name):
        e = m.conv.api()[name]
        ndim = len(e["dimensions"].split(", ")[0]) if e["dimensions"] else 0
        m.entries[name] = default_value(e, ndim)

    def units(self, ref):
        rng = self.rng
        al = self.cat.aliases
        out = []
        for u in str(ref).split(", "):
            out.append(rng.choice([a for a, r in al.items() if r == u]
                                  or [u]))
        sep = rng.choice([", ", ",", " "]) if not any(
            " " in u for u in out) else rng.choice([", ", ","])
        v = sep.join(out)
        if self.mode == "read" and rng.random() < .3:
            v = v.title()
        return v

    def add_custom(self, m):
        rng = self.rng
        r = rng.random()
        if r < .45:
            name = rng.choice(VAR_NAMES)
            if m.known(name):
                return m
            t = rng.choice(["double", "double", "string"])
            dims = self.custom_dims(m, t)
            sizes = dict(dim_sizes(m))
            for d in dims:
                if d not in "S" and d.upper() not in sizes:
                    sizes[d.upper()] = self.size(d)
            if any(d == "," for d in dims):
                return m
            m.custom[name] = (t, O.custom_dims(dims))
            m.entries[name] = random_variable(
                rng, self.np, t, O.custom_dims(dims), sizes, self.masked,
                self.special)
            return m
        if r < .75:
            variables = [n for n in m.entries if m.meta(n)[1] is not None]
            var = rng.choice(variables)
            name = var + "_" + rng.choice(ATTR_NAMES)
            if "_" in var and not var.startswith("Data_"):
                return m
        else:
            name = "GLOBAL_" + rng.choice(GLOBAL_NAMES)
        if m.known(name):
            return m
        m.custom[name] = ("attribute", None)
        m.entries[name] = random_text(rng)
        if name.endswith("Units"):
            m.entries[name] = m.entries[name].lower()
        return m

    def custom_dims(self, m, type_):
        rng = self.rng
        n = rng.choice([1, 1, 2, 2, 3, 4, 5])
        std = "MRENCI"
        letters = "".join(rng.choice(std) if rng.random() < .7 else
                          rng.choice(CUSTOM_LETTERS) for _ in range(n))
        if type_ == "string":
            letters = letters[:4] + "S"
        return letters

    def random(self, conv=None, steps=None):
        """A random object without issues."""
        rng = self.rng
        for _ in range(20):
            c = conv or self.convention()
            m = default_model(c)
            if rng.random() < .1:
                m = default_model(c, mandatory=True)
            if self.valid(m):
                break
            m = default_model(c)
            if self.valid(m):
                break
        else:
            return None
        toggles = [self.resize, self.one_value, self.drop_optional,
                   self.set_text, self.set_text]
        if self.custom:
            toggles += [self.add_custom, self.add_custom]
        n = rng.randint(0, 12) if steps is None else steps
        if n and rng.random() < .85:
            for d in [d for d in dim_sizes(m) if d not in "CIS"]:
                if rng.random() < .8:
                    m = self.attempt(m, lambda x: self.resize_one(x, d), 3)
        for _ in range(n):
            m = self.attempt(m, rng.choice(toggles), 2)
        if steps is None and rng.random() < self.large:
            m = self.attempt(m, self.enlarge, 2)
        return m

    def enlarge(self, m):
        """Something is larger than usual."""
        rng, kinds = self.rng, ["text", "measurements", "measurements"]
        if self.custom:
            kinds += ["strings", "entries", "dimensions", "array", "array"]
            kinds += ["empty"] * 3
        kind = rng.choice(kinds)
        self.ctx.count("large_" + kind)
        if kind == "text":
            names = [n for n in self.settable(m) if not n.endswith("Units")]
            m.entries[rng.choice(names)] = self.long_text()
            return m
        if kind == "measurements":
            sizes = dict(dim_sizes(m))
            dims = [d for d in sizes if d not in "CISE"]
            d = rng.choice([*dims, "M"])
            was = sizes.get(d, 1)
            sizes[d] = rng.choice([257, 300, 1025, 5000, 33000, 65600])

            def numbers():
                # (of the largest variable, e.g. with dimensions MMM)
                return max(np.prod([sizes.get(x.upper(), 1) for x in opt
                                    if x != "S"], dtype=float)
                           for n in m.entries if m.meta(n)[1] is not None
                           for opt in m.meta(n)[1].split(", "))
            while numbers() > 1e6 and sizes[d] > was:
                sizes[d] = max(sizes[d] // 3, was)
            return self.fill(m, sizes)
        if kind == "strings":
            self.custom_entry(m, "LongStrings", "string", rng.choice(
                ["IS", "MS", "QS", "RS"]))
            a = m.entries.get("LongStrings")
            if a is not None:
                a = np.array([O.text(x) for x in np.ravel(a)], dtype="U")
                if a.size:
                    k = rng.randrange(a.size)
                    b = a.tolist()
                    b[k] = self.long_text()[:rng.choice([257, 9000, 70000])]
                    b[k] = b[k].rstrip("\0")
                    m.entries["LongStrings"] = np.array(b)
            return m
        if kind == "entries":
            for i in range(rng.choice([20, 70, 130])):
                if rng.random() < .5:
                    self.custom_entry(m, f"Entry{i}", "double", "I")
                else:
                    n = rng.choice(["GLOBAL_", "ReceiverPosition_"])
                    n += f"Entry{i}"
                    if not m.known(n) and (
                            n[0] == "G" or "ReceiverPosition" in m.entries):
                        m.custom[n] = ("attribute", None)
                        m.entries[n] = random_text(rng)
            return m
        if kind == "dimensions":
            for d in rng.sample(CUSTOM_LETTERS, rng.randint(6, len(
                    CUSTOM_LETTERS))):
                self.custom_entry(m, "Along" + d, "double", d)
            return m
        if kind == "empty":
            return self.empty(m)
        big = rng.choice([66000, 100100, 140000] if rng.random() < .9 else
                         [1_100_000])
        k = rng.choice([1, 1, 2, 3])
        used = set(dim_sizes(m)) | {"S"}
        free = [d for d in CUSTOM_LETTERS if d not in used]
        if len(free) < 3 or m.known("LargeArray"):
            return m
        dims, shape = [(free[0], (big, )), (free[0] + free[1], (big // k, k)),
                       (free[0] + free[1] + free[2], (k, 2, big // 2 // k))][
            rng.randrange(3)]
        m.custom["LargeArray"] = ("double", O.custom_dims(dims))
        m.entries["LargeArray"] = self.np.standard_normal(shape)
        return m

    def empty(self, m):
        """Custom data along a dimension of size 0."""
        rng, sizes = self.rng, dict(dim_sizes(m))
        free = [d for d in CUSTOM_LETTERS if d not in sizes and d != "S"]
        if not free:
            return m
        sizes[free[0]] = 0
        for i in range(rng.randint(1, 3)):
            t = rng.choice(["double", "string"])
            d = rng.choice(["I", "R", "M", "IR", ""])
            k = rng.randint(0, len(d))
            d = d[:k] + free[0] + d[k:] + ("S" if t == "string" else "")
            n = f"Empty{i}"
            if not m.known(n):
                m.custom[n] = (t, O.custom_dims(d))
                m.entries[n] = random_variable(
                    rng, self.np, t, O.custom_dims(d), sizes, False,
                    self.special)
        return m

    def long_text(self):
        rng = self.rng
        n = rng.choice([260, 1030, 5000, 33000, 66000, 100001])
        t = rng.choice(["long text ", "Größe µ°", "x", "日本語 "])
        return (t * (n // len(t) + 1))[:n].rstrip() + "."

    def custom_entry(self, m, name, t, dims):
        """A custom variable if the name is new."""
        if m.known(name):
            return
        sizes = dict(dim_sizes(m))
        for d in dims:
            if d not in "S" and d.upper() not in sizes:
                sizes[d.upper()] = self.size(d)
        m.custom[name] = (t, O.custom_dims(dims))
        m.entries[name] = random_variable(
            self.rng, self.np, t, O.custom_dims(dims), sizes, self.masked,
            self.special)

    def attempt(self, m, toggle, tries=3):
        for _ in range(tries):
            new = toggle(m.copy())
            if self.valid(new):
                return new
        return m


def orphans(m):
    """Attributes whose variable is part of the convention but missing."""
    out = []
    for n in m.entries:
        t = m.meta(n)[0]
        if t == "attribute" and not n.startswith("GLOBAL_") and \
                n[:n.rindex("_")] not in m.entries:
            out.append(n)
    return out


# ------------------------------------------------------------- realisation
def quiet(fn, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **kwargs)


def detour(sf, o, rng):
    """Something that has no effect in the end."""
    dims, n = rng.choice([("MQ", 4), ("T", 3), ("MRV", 2), ("IC", 3),
                          ("MS", 1), ("QS", 2)])
    new = "S" in dims
    shape = tuple(1 if d in "MRIS" else n for d in dims[:len(dims) - new])
    value = np.full(shape, "detour text") if new else np.ones(shape)
    name = rng.choice(["Detour", "ADetour", "Units", "DetourDate"])
    if name in o._convention:
        return
    quiet(o.add_variable, name, value, "string" if new else "double", dims)
    att = rng.random() < .5
    if att:
        quiet(o.add_attribute, name + "_Comment", "detour")
    for _ in range(rng.randint(0, 2)):
        quiet(o.verify, issue_handling=rng.choice(["return", "ignore"]),
              mode="read")
    if att:
        o.delete(name + "_Comment")
    o.delete(name)


def realise(sf, m, rng=None):
    """Create the object with the public interface of sofar."""
    conv = m.conv
    o = quiet(sf.Sofa, conv.name, version=conv.version, verify=False)
    if rng is not None and rng.random() < .25:
        detour(sf, o, rng)
    api = conv.api()
    ref = default_model(conv)
    gone = [n for n in O.content(o) if n not in m.entries]
    mand = [n for n in gone if n not in api or O.mandatory(api[n]["flags"])]
    for n in gone:
        if n in mand:
            o.protected = False
            delattr(o, n)
            o.protected = True
        elif rng is not None and rng.random() < .5:
            delattr(o, n)
        else:
            o.delete(n)
    order = list(m.entries)
    for n in order:
        v = m.entries[n]
        if v is DYN:
            if n in O.content(o):
                m.entries[n] = getattr(o, n)
                continue
            v = m.entries[n] = "now"
        if n in m.custom:
            continue
        if n in ref.entries and n in O.content(o) and \
                ref.entries[n] is not DYN:
            try:
                if O.identical(ref.entries[n], v) and \
                        isinstance(v, (str, int, float)):
                    continue
            except Exception:                # noqa: BLE001
                pass
        ro = n in api and O.read_only(api[n]["flags"])
        if ro or n not in O.content(o):
            o.protected = False
            setattr(o, n, O.cp(v))
            o.protected = True
        else:
            setattr(o, n, O.cp(v))
    pending = [n for n in order if n in m.custom]
    pending.sort(key=lambda n: m.custom[n][0] == "attribute")
    for n in pending:
        t, d = m.custom[n]
        if t == "attribute":
            quiet(o.add_attribute, n, m.entries[n])
        else:
            dims = d
            if rng is not None:
                dims = "".join(rng.choice([x.upper(), x.lower()]) for x in d)
            quiet(o.add_variable, n, O.cp(m.entries[n]), t, dims)
    return o


def put(o, n, v):
    """Assign a value, also to entries that are read only."""
    try:
        setattr(o, n, v)
    except TypeError:
        if n not in vars(o):
            raise
        state = o.protected
        o.protected = False
        try:
            setattr(o, n, v)
        finally:
            o.protected = state


def describe(m):
    """Short description of a model for samples and reports."""
    try:
        sizes, _ = O.dimensions(m)
    except Exception as e:                   # noqa: BLE001
        sizes = repr(e)
    return {"convention": m.conv.stem, "sizes": sizes,
            "entries": len(m.entries),
            "custom": {k: list(map(str, v)) for k, v in m.custom.items()}}


def signature(m):
    """What makes a case distinct."""
    kinds = []
    for n, v in m.entries.items():
        t, d, _ = m.meta(n)
        if d is None:
            continue
        s = O.stored(v)
        kinds.append((n, np.shape(s), type(s).__name__,
                      str(getattr(s, "dtype", ""))))
    return (m.conv.stem, tuple(kinds), tuple(sorted(m.custom)))
