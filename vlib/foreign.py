"""Files as other software writes them."""
import numpy as np
from netCDF4 import Dataset

from . import gen, oracle as O, rawnc


def narrow(rng, v):
    """Smaller data types that hold exactly these numbers."""
    a = v.data
    out = ["f8"]
    if np.any(a == rawnc.FILL) or not a.size:
        return out
    with np.errstate(all="ignore"):
        f4 = a.astype("f4").astype("f8")
        ok = (f4 == a) | (np.isnan(a))
        if ok.all():
            out.append("f4")
        if np.isfinite(a).all() and (a == np.rint(a)).all() and \
                not (np.signbit(a) & (a == 0)).any():
            top = np.abs(a).max()
            out += [t for t, n in (("i1", 120), ("i2", 32000),
                                   ("i4", 2 ** 31 - 10), ("i8", 2 ** 52))
                    if top < n]
    return out


def rewrite(src, dst, rng, scalars=False):
    """The content of a file in another storage layout.

    Returns the list of what is special about the new file.
    """
    raw = rawnc.Raw(src)
    special = set()
    names = list(raw.vars)
    rng.shuffle(names)
    attrs = list(raw.attrs)
    if rng.random() < .5:
        rng.shuffle(attrs)
    unl = rng.random() < .3
    formats = ["NETCDF4"] * 4
    if not unl and not raw.unlimited and 0 not in raw.dims.values():
        formats += ["NETCDF4_CLASSIC"]
    with Dataset(dst, "w", format=rng.choice(formats)) as f:
        f.set_auto_maskandscale(False)
        f.set_auto_chartostring(False)
        dims = list(raw.dims)
        rng.shuffle(dims)
        for d in dims:
            n = raw.dims[d]
            if n == 0 or d == "S" and "S" in raw.unlimited or \
                    d == "M" and unl:
                f.createDimension(d, None)
                special.add("unlimited")
            else:
                f.createDimension(d, n)
        classic = f.data_model == "NETCDF4_CLASSIC"
        for a in attrs:
            put_attr(rng, f, a, raw.attrs[a], classic, special)
        convert = rng.random() < .7
        for n in names:
            v = raw.vars[n]
            kw = {}
            t = "S1" if v.dtype == np.dtype("S1") else "f8"
            vd = v.dims
            data = v.data
            if t == "f8" and convert and rng.random() < .5:
                t = rng.choice(narrow(rng, v))
                if classic and t == "i8":
                    t = "f8"
                special.add(t)
                if rng.random() < .3 and t != "i1":
                    kw["endian"] = "big"
                    special.add("big")
            if scalars and data.size == 1 and t != "S1" and \
                    rng.random() < .4:
                vd, data = (), data.reshape(())
                special.add("scalar")
            if vd and rng.random() < .4:
                kw.update(rng.choice([
                    {"zlib": True, "complevel": rng.randint(1, 9)},
                    {"fletcher32": True}, {"zlib": True, "shuffle": False}]))
                special.add("filters")
            var = f.createVariable(n, t, vd, **kw)
            var.set_auto_mask(False)
            var.set_auto_scale(False)
            if data.size:
                if t == "S1":
                    var[:] = data
                elif vd:
                    var[...] = data.astype(t)
                else:
                    var.assignValue(data.astype(t))
            keys = list(v.attrs)
            rng.shuffle(keys)
            for a in keys:
                if a == "_FillValue":
                    continue
                if a == "_Encoding":
                    if rng.random() < .5:
                        special.add("no encoding")
                        continue
                put_attr(rng, var, a, v.attrs[a], classic, special)
    return sorted(special)


def put_attr(rng, where, name, value, classic, special):
    if isinstance(value, str) and not classic and rng.random() < .2:
        where.setncattr_string(name, value)
        special.add("string attributes")
    else:
        where.setncattr(name, value)


def dump(raw, dst):
    """Write a (changed) description of a file, see rawnc.Raw."""
    with Dataset(dst, "w", format="NETCDF4") as f:
        for d, n in raw.dims.items():
            f.createDimension(d, None if d in raw.unlimited else n)
        for a, x in raw.attrs.items():
            put_any(f, a, x)
        for n, v in raw.vars.items():
            kw = {"endian": "big"} if v.endian == "big" and \
                v.dtype.itemsize > 1 else {}
            var = f.createVariable(n, v.dtype, v.dims, **kw)
            var.set_auto_maskandscale(False)
            var.set_auto_chartostring(False)
            if v.dims and v.data.size:
                var[...] = v.data
            elif not v.dims:
                var.assignValue(v.data)
            for a, x in v.attrs.items():
                put_any(var, a, x)


def put_any(where, name, value):
    if isinstance(value, list):
        where.setncattr_string(name, value)
    else:
        where.setncattr(name, value)


class Damage:
    """Changes to a file, as other software (or users) make them.

    Whether the file is valid afterwards is decided by the model.
    """

    def __init__(self, rng, nprng, cat, raw, conv):
        self.rng, self.np, self.cat, self.raw = rng, nprng, cat, raw
        self.conv = conv
        self.done = []

    def apply(self):
        ops = {"del_global": 2, "del_var": 2, "del_attr": 2, "rename": 2,
               "text": 4, "rule": 4, "odd_attr": 2, "relabel": 3, "resize": 2,
               "dtype": 2, "kind": 1, "mask": 2, "add_var": 4, "add_attr": 3,
               "convention": 2, "unused_dim": 1, "case": 1, "order": 1,
               "chars": 1}
        op = self.rng.choices(list(ops), list(ops.values()))[0]
        what = getattr(self, op)()
        if what:
            self.done.append(f"{op} {what}")

    # ---- choices
    def var(self, numeric=None):
        names = [n for n, v in self.raw.vars.items() if numeric is None or
                 (v.dtype != np.dtype("S1")) == numeric]
        return self.rng.choice(names) if names else None

    def holder(self):
        """(attributes, prefix) of a variable or of the file."""
        if self.rng.random() < .5:
            return self.raw.attrs, "GLOBAL_"
        n = self.var()
        if n is None:
            return self.raw.attrs, "GLOBAL_"
        return self.raw.vars[n].attrs, n.replace(".", "_") + "_"

    def attr(self, locked=False):
        """A random attribute."""
        for _ in range(5):
            a, p = self.holder()
            names = [x for x in a if not x.startswith("_") and
                     (locked or x not in ("SOFAConventions",
                                          "SOFAConventionsVersion"))]
            if names:
                n = self.rng.choice(names)
                return a, n, p + n
        return None

    # ---- changes
    def del_global(self):
        n = self.rng.choice(list(self.raw.attrs))
        del self.raw.attrs[n]
        return n

    def del_var(self):
        n = self.var()
        if n is not None:
            del self.raw.vars[n]
        return n

    def del_attr(self):
        x = self.attr()
        if x:
            del x[0][x[1]]
            return x[2]

    def rename(self):
        rng = self.rng
        normal = [e["name"] for e in self.conv.entries]
        if rng.random() < .5:
            x = self.attr(True)
            if not x:
                return
            new = rng.choice([x[1] + "X", x[1].lower(), "Foo", "Comment",
                              "Units", "Type", "Title", "DateCreated2"] +
                             [n.split(":")[-1] for n in normal if ":" in n])
            if new in x[0]:
                return
            x[0][new] = x[0].pop(x[1])
            return f"{x[2]} to {new}"
        n = self.var()
        if n is None:
            return
        new = rng.choice([n + "X", n.lower() + "2", "Foo", n.replace(
            "Data.", "Data.My"), "PRIVATEVar", "APIVar", "GLOBALVar",
            "Some_Var", "PRIVATE", "Data.Foo", "Data.Foo_Bar"] +
            [x for x in normal if ":" not in x])
        taken = {k.replace(".", "_") for k in self.raw.vars}
        if new.replace(".", "_") in taken:
            return
        self.raw.vars[new] = self.raw.vars.pop(n)
        return f"{n} to {new}"

    def text(self):
        x = self.attr()
        if x:
            x[0][x[1]] = gen.random_text(self.rng)
            return x[2]

    def rule(self):
        """Values that matter to the rules of the standard."""
        rng = self.rng
        names = [k for k in self.cat.rules]
        rng.shuffle(names)
        for k in names:
            v, _, a = k.partition(":")
            spec = self.cat.rules[k]
            if not a or v != "GLOBAL" and v not in self.raw.vars:
                continue
            attrs = self.raw.attrs if v == "GLOBAL" else self.raw.vars[v].attrs
            if a not in attrs or a.startswith("SOFAConventions"):
                continue
            pool = list(spec.get("value") or []) + list(
                spec.get("specific", {}))
            pool = [p for p in pool if isinstance(p, str)] or ["nonsense"]
            new = rng.choice(pool)
            attrs[a] = rng.choice([new, new, new.upper(), new + " ",
                                   new.capitalize()])
            return f"{k}={attrs[a]!r}"

    def case(self):
        x = self.attr()
        if x and isinstance(x[0][x[1]], str):
            x[0][x[1]] = self.rng.choice([str.upper, str.lower, str.swapcase])(
                x[0][x[1]])
            return x[2]

    def odd_attr(self):
        x = self.attr()
        if x:
            x[0][x[1]] = self.rng.choice([
                np.float64(1.5), np.int32(3), np.array([1., 2.]),
                np.array([1, 2, 3], dtype="i2"), ["a", "bc"], np.uint8(3),
                np.float32(.5)])
            return f"{x[2]}={x[0][x[1]]!r}"

    def setdata(self, v, dims, dtype):
        shape = tuple(self.raw.dims[d] for d in dims)
        v.dims = tuple(dims)
        v.dtype = np.dtype(dtype)
        if v.dtype == np.dtype("S1"):
            v.data = np.array([self.rng.choice([b"a", b"b", b" ", b""])
                               for _ in range(int(np.prod(shape)))],
                              dtype="S1").reshape(shape)
        else:
            v.data = self.np.integers(0, 100, shape).astype(v.dtype)

    def relabel(self):
        """Another shape."""
        n = self.var()
        if n is None:
            return
        v = self.raw.vars[n]
        dims = list(v.dims)
        text = v.dtype == np.dtype("S1")
        last = [dims.pop()] if text and dims else []
        pool = [d for d in self.raw.dims if d != "S"]
        if not pool:
            return
        k = self.rng.randrange(5)
        if k == 0 and dims:
            dims[self.rng.randrange(len(dims))] = self.rng.choice(pool)
        elif k == 1:
            dims.append(self.rng.choice(pool))
        elif k == 2 and dims:
            dims.pop(self.rng.randrange(len(dims)))
        elif k == 3:
            self.rng.shuffle(dims)
        elif "I" in self.raw.dims:
            dims += ["I"] * self.rng.randint(1, 2)
        if self.banned(n, dims):
            return
        if any(self.raw.dims[d] == 0 for d in dims):
            return
        if last and self.raw.dims[last[0]] == 0 or not dims and text:
            return
        self.setdata(v, dims + last, v.dtype)
        return f"{n} {v.dims}"

    def banned(self, n, dims):
        """1-D data of variables with several axes (see the statement)."""
        e = self.conv.api().get(n.replace(".", "_"))
        return e is None and not dims or \
            len([d for d in dims]) == 1 and e is not None and \
            e["dimensions"] is not None and \
            len(e["dimensions"].split(", ")[0]) > 1 and \
            self.raw.dims[dims[0]] > 1

    def resize(self):
        """Another size of a dimension."""
        pool = [d for d in self.raw.dims if d not in self.raw.unlimited and
                self.raw.dims[d] > 0]
        if not pool:
            return
        d = self.rng.choice(pool)
        self.raw.dims[d] = self.rng.choice([1, 2, 3, 4, 5, 7])
        for v in self.raw.vars.values():
            if d in v.dims:
                if all(self.raw.dims[x] for x in v.dims):
                    self.setdata(v, v.dims, v.dtype)
        return f"{d}={self.raw.dims[d]}"

    def dtype(self):
        """Another data type of numbers."""
        n = self.var(True)
        if n is None:
            return
        v = self.raw.vars[n]
        v.dtype = np.dtype(self.rng.choice(
            ["f4", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]))
        v.data = self.np.integers(0, 100, v.data.shape).astype(v.dtype)
        return f"{n} {v.dtype}"

    def kind(self):
        """Numbers instead of text or vice versa."""
        n = self.var()
        if n is None:
            return
        v = self.raw.vars[n]
        if v.dtype == np.dtype("S1"):
            if self.banned(n, v.dims[:-1]) or \
                    0 in [self.raw.dims[d] for d in v.dims[:-1]]:
                return
            self.setdata(v, v.dims[:-1], "f8")
        else:
            if "S" not in self.raw.dims or not self.raw.dims["S"] or \
                    not v.dims:
                return
            self.setdata(v, v.dims + ("S",), "S1")
        return n

    def mask(self):
        n = self.var(True)
        if n is None:
            return
        v = self.raw.vars[n]
        if v.dtype != np.dtype("f8") or not v.data.size:
            return
        m = self.np.random(v.data.shape) < self.rng.choice([.2, .6, 1])
        v.data = np.where(m, rawnc.FILL, v.data)
        return n

    def add_var(self):
        rng = self.rng
        n = rng.choice(gen.VAR_NAMES + ["Data.Extra", "Data.X2", "Foo"] +
                       ["PRIVATEVar", "APIVar", "GLOBALVar", "Some_Var",
                        "Data.Foo_Bar"] +
                       [e["name"] for e in self.conv.entries
                        if ":" not in e["name"]])
        if n.replace(".", "_") in {k.replace(".", "_")
                                   for k in self.raw.vars}:
            return
        normal = n.replace(".", "_") in self.conv.api()
        dims = [rng.choice([d for d in self.raw.dims if d != "S"])
                for _ in range(rng.randint(1, 3))]
        if rng.random() < .4 or any(self.raw.dims[d] == 0 for d in dims):
            d = rng.choice(gen.CUSTOM_LETTERS)
            self.raw.dims.setdefault(d, rng.choice([1, 2, 3, 5]))
            dims[rng.randrange(len(dims))] = d
        if any(self.raw.dims[d] == 0 for d in dims) or \
                normal and self.banned(n, dims):
            return
        v = rawnc.RawVar.__new__(rawnc.RawVar)
        v.attrs, v.endian = {}, "native"
        text = rng.random() < .25 and self.raw.dims.get("S")
        if text:
            self.setdata(v, dims + ["S"], "S1")
        else:
            self.setdata(v, dims, rng.choice(["f8", "f8", "f4", "i4", "u2"]))
        self.raw.vars[n] = v
        for a in rng.sample(gen.ATTR_NAMES, rng.randint(0, 3)):
            v.attrs[a] = gen.random_text(rng)
        return f"{n} {v.dims} {v.dtype}"

    def add_attr(self):
        a, p = self.holder()
        n = self.rng.choice(gen.ATTR_NAMES + gen.GLOBAL_NAMES +
                            ["Units", "Type", "Foo_Bar", "Title"])
        if n in a:
            return
        a[n] = gen.random_text(self.rng)
        return p + n

    def convention(self):
        rng = self.rng
        a = self.raw.attrs
        k = rng.randrange(5)
        if k == 0:
            c = rng.choice(self.cat.conventions)
            a["SOFAConventions"] = c.name
            a["SOFAConventionsVersion"] = c.version
            return c.stem
        if k == 1:
            n = "SOFAConventionsVersion"
            a[n] = rng.choice(["99.0", "1", "", "v1.0", "1.0 ", "0.0"] +
                              [c.version for c in self.cat.conventions])
        else:
            n = "SOFAConventions"
            a[n] = rng.choice([self.conv.name + "X", "", "Foo",
                               self.conv.name.lower(), self.conv.name + "_",
                               self.conv.name[:-1], "*"])
        return f"{n}={a[n]!r}"

    def unused_dim(self):
        d = self.rng.choice("ZYQ")
        if d not in self.raw.dims:
            self.raw.dims[d] = self.rng.choice([1, 4])
            return d

    def order(self):
        for x in (self.raw.vars, self.raw.attrs, self.raw.dims):
            items = list(x.items())
            self.rng.shuffle(items)
            x.clear()
            x.update(items)
        return "of everything"

    def chars(self):
        """Another name of the dimension for characters."""
        names = [n for n, v in self.raw.vars.items()
                 if v.dtype == np.dtype("S1") and
                 n.replace(".", "_") in self.conv.api()]
        if not names:
            return
        n = self.rng.choice(names)
        v = self.raw.vars[n]
        if 0 in v.data.shape:
            return
        d = self.rng.choice("TUSV")
        size = v.data.shape[-1]
        if self.raw.dims.setdefault(d, size) != size:
            return
        v.dims = v.dims[:-1] + (d,)
        return f"{n} {d}"


def model(raw, conv):
    """The SOFA object that a file describes, if it is of a convention."""
    m = O.Obj(conv)
    api = conv.api()

    def put(name, value, type_, dims):
        m.entries[name] = value
        if name not in api:
            m.custom[name] = (type_, dims)
    for a, x in raw.attrs.items():
        put("GLOBAL_" + a, x, "attribute", None)
    for n, v in raw.vars.items():
        n = n.replace(".", "_")
        text = v.dtype == np.dtype("S1")
        if text:
            x = rawnc.strings(v).astype("U")
        else:
            x = v.data
            fill = x == rawnc.FILL
            if fill.any():
                x = np.ma.MaskedArray(x, fill)
        if x.size == 1 and not np.ma.is_masked(x):
            x = x.reshape(-1)[0]
            if text:
                x = str(x)
        put(n, x, "string" if text else "double",
            O.custom_dims("".join(v.dims)))
        for a, y in v.attrs.items():
            if a not in ("_Encoding", "_FillValue"):
                put(f"{n}_{a}", y, "attribute", None)
    return m
