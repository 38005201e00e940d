"""Raw netCDF content, read without sofar and without conversions."""
import numpy as np
from netCDF4 import Dataset

from . import oracle as O

FILL = 9.969209968386869e+36


class RawVar:
    def __init__(self, v):
        self.dtype = v.dtype if v.dtype is not str else "vlen"
        self.dims = tuple(v.dimensions)
        self.data = np.asarray(v[...])
        self.attrs = {a: v.getncattr(a) for a in v.ncattrs()}
        self.filters = v.filters()
        self.endian = v.endian()


class Raw:
    def __init__(self, path):
        with Dataset(path, "r") as f:
            f.set_auto_maskandscale(False)
            f.set_auto_chartostring(False)
            self.data_model = f.data_model
            self.groups = list(f.groups)
            self.types = list(f.cmptypes) + list(f.vltypes) + \
                list(f.enumtypes)
            self.dims = {k: d.size for k, d in f.dimensions.items()}
            self.unlimited = [k for k, d in f.dimensions.items()
                              if d.isunlimited()]
            self.attrs = {a: f.getncattr(a) for a in f.ncattrs()}
            self.vars = {k: RawVar(v) for k, v in f.variables.items()}

    def names(self):
        """The names that the entries have in SOFA objects."""
        out = ["GLOBAL_" + a for a in self.attrs]
        for k, v in self.vars.items():
            k = k.replace(".", "_")
            out.append(k)
            out += [f"{k}_{a}" for a in v.attrs if a not in
                    ("_Encoding", "_FillValue")]
        return out


def strings(var):
    """Strings of a character variable as object array."""
    d = var.data
    if d.shape[-1] == 0:
        return np.full(d.shape[:-1], "", dtype=object)
    b = np.ascontiguousarray(d).view(f"S{d.shape[-1]}")[..., 0]
    out = np.empty(b.shape, dtype=object)
    flat = out.reshape(-1)
    for i, x in enumerate(b.reshape(-1).tolist()):
        flat[i] = x.decode("utf-8")
    return out


def ncname(name):
    """netCDF name of a variable."""
    return "Data." + name[5:] if name.startswith("Data_") else name


def layout_problems(raw, m):
    """Differences between the file and the model (AES69 layout)."""
    out = []
    if not raw.data_model.startswith("NETCDF4"):
        out.append("file is " + raw.data_model)
    if raw.groups or raw.types:
        out.append(f"file contains groups or types {raw.groups} {raw.types}")
    sizes, _ = O.dimensions(m)
    exp = dict(sizes)
    if sizes.get("S") == 0 and raw.dims.get("S") == 1 and \
            "S" in raw.unlimited:
        # dimensions of size 0 are unlimited
        sizes = dict(sizes, S=1)
        exp = dict(sizes)
    if raw.dims != exp:
        out.append(f"dimensions are {raw.dims} but must be {exp}")
    want_attrs = {n[7:]: v for n, v in m.entries.items()
                  if n.startswith("GLOBAL_")}
    out += diff_attrs("global", want_attrs, raw.attrs)
    variables = [n for n in m.entries if m.meta(n)[0] != "attribute"]
    want = {ncname(n) for n in variables}
    if want != set(raw.vars):
        out.append(f"missing variables {sorted(want - set(raw.vars))}, "
                   f"invented variables {sorted(set(raw.vars) - want)}")
    for n in variables:
        if ncname(n) in raw.vars:
            out += variable_problems(raw, m, n, sizes)
    return out


def diff_attrs(what, want, got):
    out = []
    for k in want:
        if k not in got:
            out.append(f"{what}: attribute {k} is missing")
        elif not isinstance(got[k], str) or got[k] != str(O.stored(want[k])):
            out.append(f"{what}: attribute {k} is {got[k]!r} but must be "
                       f"{want[k]!r}")
    out += [f"{what}: invented attribute {k}" for k in got if k not in want]
    return out


def variable_problems(raw, m, n, sizes):
    out = []
    t, dims, _ = m.meta(n)
    v = raw.vars[ncname(n)]
    attrs = {a[len(n) + 1:]: x for a, x in m.entries.items()
             if a.startswith(n + "_") and m.meta(a)[0] == "attribute"
             and "_" not in a[len(n) + 1:]}
    got = {k: x for k, x in v.attrs.items() if k not in
           ("_Encoding", "_FillValue")}
    out += diff_attrs(n, attrs, got)
    opts = allowed_dims(m, n, sizes)
    if "".join(v.dims) not in opts:
        out.append(f"{n} has the dimensions {v.dims} but must have one of "
                   f"{opts}")
        return out
    shape = tuple(sizes[d] for d in v.dims)
    if v.data.shape != shape:
        out.append(f"{n} has shape {v.data.shape} but must have {shape}")
        return out
    if t == "double":
        if v.dtype != np.dtype("f8"):
            out.append(f"{n} is stored as {v.dtype}")
            return out
        data, mask = O.norm_num(m.entries[n], len(dims.split(", ")[0]))
        data, mask = data.reshape(shape), mask.reshape(shape)
        if mask.any() and not np.all(v.data[mask] == v.attrs.get(
                "_FillValue", FILL)):
            out.append(f"{n}: missing data is not marked as missing")
        if np.any(v.data[~mask] == FILL):
            out.append(f"{n}: data is missing")
        if not O.same_bits(data, v.data.astype(float), mask):
            out.append(f"{n}: values differ {O.short(v.data)} instead of "
                       f"{O.short(data)}")
    else:
        if v.dtype != np.dtype("S1") or not v.dims[-1] == "S":
            out.append(f"{n} is stored as {v.dtype} {v.dims}")
            return out
        _, items = O.str_items(m.entries[n], len(v.dims))
        got = strings(v).reshape(-1).tolist()
        if got != items:
            out.append(f"{n}: strings differ {O.short(got)} instead of "
                       f"{O.short(items)}")
    return out


def allowed_dims(m, n, sizes):
    t, dims, _ = m.meta(n)
    out = []
    for dim in dims.split(", "):
        ref = tuple(sizes.get(d.upper(), -1) if d != "S" else 1 for d in dim)
        if t == "string":
            act = O.str_shape(m.entries[n], len(dim))
        else:
            act = O.num_shape(m.entries[n], len(dims.split(", ")[0]))
            act = act + (1,) * (len(dim) - len(act))
        if act[:len(ref)] == ref and all(s == 1 for s in act[len(ref):]):
            out.append(dim.upper())
    return out


def sofa_path(path):
    path = str(path)
    return path if path.lower().endswith(".sofa") else path + ".sofa"


def load(ctx, path):
    """Raw content of a file that write_sofa should have written."""
    import os
    p = sofa_path(path)
    if not os.path.isfile(p):
        ctx.fail(f"{os.path.basename(p)} was not written",
                 files=os.listdir(os.path.dirname(p)))
    try:
        return Raw(p)
    except (OSError, ValueError, KeyError, RuntimeError) as e:
        ctx.fail(f"{os.path.basename(p)} is no readable netCDF file: {e!r}")
