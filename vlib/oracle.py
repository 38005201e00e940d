"""Reference model of SOFA objects, independent of sofar.

``Obj`` is a plain description of a SOFA object.  ``issues`` decides which
rules of the standard it breaks.  Nothing in here imports sofar.
"""
import math
import re

import numpy as np

STD_DIMS = "ERMNCIS"


class Obj:
    def __init__(self, conv):
        self.conv = conv                  # cat.Convention
        self.entries = {}                 # name -> value (as assigned)
        self.custom = {}                  # name -> (type, dims)
        self.unset_custom = set()         # names that were deleted again

    def copy(self):
        o = Obj(self.conv)
        o.entries = {k: cp(v) for k, v in self.entries.items()}
        o.custom = dict(self.custom)
        return o

    def meta(self, name):
        """(type, dimensions, flags) of an entry."""
        api = self.conv.api()
        if name in api:
            e = api[name]
            return e["type"], e["dimensions"], e["flags"]
        t, d = self.custom[name]
        return t, d, None

    def known(self, name):
        return name in self.custom or name in self.conv.api()


def cp(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [cp(x) for x in v]
    return v


def custom_dims(dims):
    """Custom dimensions are set by the variables that use them."""
    if dims is None:
        return None
    return "".join(d if d in STD_DIMS or not d.isalpha() else d.lower()
                   for d in dims.upper())


def stored(value):
    """What an object holds after assigning ``value``."""
    if isinstance(value, (str, dict, np.ndarray)):
        return value
    value = np.atleast_2d(value)
    if value.size == 1:
        return value.flatten()[0]
    return value


def mandatory(flags):
    return flags is not None and "m" in flags


def read_only(flags):
    return flags is not None and "r" in flags


# ------------------------------------------------------------------- types
def type_ok(value, type_):
    v = stored(value)
    if type_ == "attribute":
        return isinstance(v, str) and unicode_ok(v)
    if type_ == "double":
        if isinstance(v, (bool, np.bool_)):
            return False
        if isinstance(v, (np.ndarray, np.number)):
            return v.dtype.kind in "if"
        return isinstance(v, (int, float))
    if isinstance(v, np.ndarray):
        return v.dtype.kind in "US" and all(map(unicode_ok, v.ravel()))
    return isinstance(v, str) and unicode_ok(v)


def unicode_ok(text):
    """Can it be stored as UTF-8?"""
    try:
        text.decode("utf-8") if isinstance(text, bytes) else \
            text.encode("utf-8")
    except UnicodeError:
        return False
    return True


def nbytes(s):
    return len(s) if isinstance(s, bytes) else len(str(s).encode(
        "utf-8", "surrogatepass"))


def max_len(value):
    v = np.asarray(stored(value))
    return max((nbytes(s) for s in v.ravel().tolist()), default=0)


def num_shape(value, ndim):
    """Shape of numeric data; 1-D data is a row, missing dims are appended."""
    s = np.shape(stored(value))
    if ndim == 1:
        # only one axis is longer than 1
        n = int(np.prod(s, dtype=int))
        return (n,) if max(s, default=1) == n or n == 1 else tuple(s)
    if len(s) == 0:
        s = (1, 1)
    elif len(s) == 1:
        s = (1,) + tuple(s)
    return tuple(s) + (1,) * (ndim - len(s))


def str_shape(value, ndim):
    """Shape of string data; ndim is the number of dims including S."""
    s = np.shape(stored(value))
    if isinstance(stored(value), str):
        s = (1, 1)
    return tuple(s) + (1,) * (ndim - len(s))


def setter_size(value, idx, ndim):
    """Size that a variable defines for dimension number idx."""
    s = np.shape(stored(value))
    if ndim == 1:
        return int(np.prod(s, dtype=int))
    return s[idx] if idx < len(s) else 1


def dimensions(obj):
    """Sizes of the dimensions as defined by the data (None if ambiguous)."""
    sizes, ambiguous, S = {}, False, 0
    for name, value in obj.entries.items():
        type_, dims, _ = obj.meta(name)
        if dims is None:
            continue
        first = dims.split(", ")[0]
        for i, d in enumerate(first):
            if d.islower():
                n = setter_size(value, i, len(first))
                if sizes.get(d.upper(), n) != n:
                    ambiguous = True
                sizes[d.upper()] = n
            elif d == "S" and type_ == "string":
                S = max(S, max_len(value))
    sizes.update(C=3, I=1, S=S)
    return sizes, ambiguous


def match_dims(obj, name, sizes):
    """The first dimension combination that fits or None."""
    value = obj.entries[name]
    type_, dims, _ = obj.meta(name)
    for dim in dims.split(", "):
        ref = tuple(sizes.get(d.upper(), -1) if d != "S" else 1 for d in dim)
        if type_ == "string":
            act = str_shape(value, len(dim))
        else:
            act = num_shape(value, len(dims.split(", ")[0]))
            act = act + (1,) * (len(dim) - len(act))
        if act[:len(ref)] == ref and all(s == 1 for s in act[len(ref):]):
            return dim.upper()
    return None


# -------------------------------------------------------------------- rules
def unit_equal(test, ref, aliases):
    ref_units = re.split(", ?", ref)
    for sep in (", ?", ", ?| "):
        units = re.split(sep, test)
        if len(units) == len(ref_units):
            return all(aliases.get(t) == r for t, r in zip(units, ref_units))
    return False


def value_ok(test, ref, aliases, key):
    if ref is None:
        return True
    if test in ref:
        return True
    if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
        return False
    low = test.lower()
    if low in ref:
        return True
    if key.endswith("Units"):
        return unit_equal(low, ref[0], aliases)
    return False


def pyname(key):
    return key.replace(".", "_").replace(":", "_")


def rule_issues(obj, cat, sizes):
    out = []
    have = obj.entries
    for key, rule in cat.rules.items():
        name = pyname(key)
        if name not in have:
            continue
        test = have[name]
        test = stored(test)
        if rule.get("value") is not None and not value_ok(
                test, rule["value"], cat.aliases, name):
            out.append(("rule", name, f"value of {name}"))
        for dep in rule.get("general", []):
            if pyname(dep) not in have:
                out.append(("rule", pyname(dep), f"{name} needs {dep}"))
        spec = rule.get("specific", {})
        if not isinstance(test, str):
            continue
        if name not in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
            test = test.lower()
        for dep, ref in spec.get(test, {}).items():
            if dep == "_dimensions":
                for d, r in ref.items():
                    if sizes.get(d) not in r["value"]:
                        out.append(("rule", name, f"{name} is {test}: {d}="
                                    f"{sizes.get(d)}"))
                continue
            dn = pyname(dep)
            if dn not in have:
                out.append(("rule", dn, f"{name} is {test}: needs {dep}"))
            elif ref is not None and not value_ok(
                    stored(have[dn]), ref, cat.aliases, dn):
                out.append(("rule", dn, f"{name} is {test}: {dep} wrong"))
    return out


def name_issues(obj):
    out = []
    api = obj.conv.api()
    normative = {n.replace("GLOBAL_", "") for n in api}
    for name in obj.entries:
        type_, dims, _ = obj.meta(name)
        if type_ == "attribute":
            if "_" not in name:
                out.append(("name", name, "no underscore"))
            elif not name.startswith("GLOBAL_"):
                var = name[:name.rindex("_")]
                if var not in api and var not in obj.custom:
                    out.append(("name", name, "missing variable"))
        else:
            if "_" in name.replace("Data_", ""):
                out.append(("name", name, "underscores"))
        if name.startswith(("PRIVATE", "API")):
            out.append(("name", name, "reserved"))
        if name.startswith("GLOBAL") and (
                not name.startswith("GLOBAL_") or type_ != "attribute"):
            out.append(("name", name, "reserved"))
        if name in obj.custom and name.replace("GLOBAL_", "") in normative:
            out.append(("name", name, "normative"))
    return out


def issues(obj, cat, mode="write"):
    """List of (family, entry, text) for errors and for warnings.

    Families: missing, type | name, shape, rule, case, deprecated.
    Errors of the first two hide the others.
    """
    err, warn = [], []
    api = obj.conv.api()
    for name, e in api.items():
        if mandatory(e["flags"]) and name not in obj.entries:
            err.append(("missing", name, "mandatory"))
    for name, v in obj.entries.items():
        if not type_ok(v, obj.meta(name)[0]):
            err.append(("type", name, obj.meta(name)[0]))
    if err:
        return err, warn
    err += name_issues(obj)
    sizes, _ = dimensions(obj)
    for name in obj.entries:
        if obj.meta(name)[1] is not None and \
                match_dims(obj, name, sizes) is None:
            err.append(("shape", name, str(np.shape(
                stored(obj.entries[name])))))
    err += rule_issues(obj, cat, sizes)
    if mode == "write":
        for name, v in obj.entries.items():
            if name.endswith("Units") and obj.meta(name)[0] == "attribute" \
                    and stored(v).lower() != stored(v):
                err.append(("case", name, v))
    name = obj.conv.name
    if name in cat.deprecations["GLOBAL:SOFAConventions"]:
        (err if mode == "write" else warn).append(
            ("deprecated", "GLOBAL_SOFAConventions", name))
    if float(obj.conv.version) < 1:
        warn.append(("preliminary", "GLOBAL_SOFAConventionsVersion",
                     obj.conv.version))
    return err, warn


# ------------------------------------------------------------------ content
def content(sofa):
    """All data of a SOFA object."""
    return {k: v for k, v in vars(sofa).items() if not k.startswith("_")}


def trim(shape):
    shape = list(shape)
    while shape and shape[-1] == 1:
        shape.pop()
    return tuple(shape)


def norm_num(value, ndim):
    """Full-size float64 array and mask of numeric data."""
    v = stored(value)
    shape = num_shape(v, ndim)
    mask = np.ma.getmaskarray(v) if isinstance(v, np.ma.MaskedArray) \
        else np.zeros(np.shape(v), bool)
    data = np.asarray(np.ma.getdata(v))
    data = data.astype(np.float64)
    return data.reshape(shape), np.broadcast_to(mask, np.shape(v)).reshape(
        shape)


def same_bits(a, b, mask=None):
    """Identical floats: same value, same sign of zero, NaN where NaN."""
    if a.shape != b.shape:
        return False
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if mask is not None and mask.any():
        a, b = a[~mask], b[~mask]
    nan = np.isnan(a)
    if not np.array_equal(nan, np.isnan(b)):
        return False
    return a[~nan].tobytes() == b[~nan].tobytes()


def same_num(a, b, ndim):
    try:
        (da, ma), (db, mb) = norm_num(a, ndim), norm_num(b, ndim)
    except (TypeError, ValueError):
        return False
    if trim(da.shape) != trim(db.shape):
        return False
    n = max(da.ndim, db.ndim)
    da, ma = (x.reshape(x.shape + (1,) * (n - x.ndim)) for x in (da, ma))
    db, mb = (x.reshape(x.shape + (1,) * (n - x.ndim)) for x in (db, mb))
    return np.array_equal(ma, mb) and same_bits(da, db, ma)


def text(x):
    return x.decode("utf-8") if isinstance(x, bytes) else str(x)


def str_items(value, ndim=2):
    v = np.asarray(stored(value))
    return str_shape(value, ndim), [text(x) for x in v.ravel().tolist()]


def same_str(a, b, ndim=2):
    try:
        if np.asarray(stored(a)).dtype.kind not in "US" or \
                np.asarray(stored(b)).dtype.kind not in "US":
            return False
        (sa, ia), (sb, ib) = str_items(a, ndim), str_items(b, ndim)
    except (TypeError, ValueError):
        return False
    return trim(sa) == trim(sb) and ia == ib


def same_value(a, b, type_, dims):
    """Equality up to the representation (lists, dtype, singleton dims)."""
    if type_ == "attribute":
        a, b = stored(a), stored(b)
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    ndim = len(dims.split(", ")[0]) if dims else 1
    if type_ == "double":
        return same_num(a, b, ndim)
    return same_str(a, b, ndim)


def identical(a, b):
    """Strict identity of stored values (type, dtype, shape, bits, mask)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ma.MaskedArray):
        m = np.ma.getmaskarray(a)
        return (a.dtype == b.dtype and a.shape == b.shape
                and np.array_equal(m, np.ma.getmaskarray(b))
                and np.ma.getdata(a)[~m].tobytes()
                == np.ma.getdata(b)[~m].tobytes())
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.kind == "O":
            return repr(a) == repr(b)
        return a.tobytes() == b.tobytes()
    if isinstance(a, np.generic):
        return a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


def freeze(c):
    """Deep snapshot of a content dictionary."""
    return {k: cp(v) for k, v in c.items()}


def diff_content(a, b):
    """Names that differ (strict)."""
    out = [k for k in a if k not in b] + [k for k in b if k not in a]
    out += [k for k in a if k in b and not identical(a[k], b[k])]
    return sorted(set(out))


def diff_semantic(obj, got):
    """Names for which content ``got`` differs from the model."""
    out = []
    for k in obj.entries:
        if k not in got:
            out.append(f"{k}: missing")
            continue
        t, d, _ = obj.meta(k)
        if not same_value(obj.entries[k], got[k], t, d):
            out.append(f"{k}: expected {short(obj.entries[k])} "
                       f"got {short(got[k])}")
    for k in got:
        if k not in obj.entries:
            out.append(f"{k}: invented {short(got[k])}")
    return out


def short(x, n=160):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


KINDS = {"FIR": "samples", "TF": "frequencies", "SOS": "SOS"}


def meaning(d, words, data_type):
    """Whether the description of a dimension fits (R and E: see checks)."""
    words = words.split(" (set")[0]
    if d == "N":
        for k, w in KINDS.items():
            if data_type in (k, k + "-E", k + "E"):
                return all((x in words) == (x == w) for x in KINDS.values())
        return True
    want = {"M": "measurement", "S": "string", "C": "coordinate",
            "I": "single", "R": "receiver", "E": "emitter"}.get(d, "custom")
    return want in words
