"""Random histories of operations on a pool of SOFA objects.

A monitor compares the complete observable state of every object of the pool
with its state before the operation and with the reference model after every
single operation.  Deviations are labelled with the properties they belong to;
a check only reports deviations of its own property (the other checks report
theirs) and drops the history otherwise.
"""
import os
import re
import sys

import numpy as np
from netCDF4 import Dataset

from . import gen, mutate, oracle as O
from .harness import call, short


class Drop(Exception):
    """The history met a deviation that belongs to another property."""


class Slot:
    def __init__(self, o, m, origin):
        self.o, self.m, self.origin = o, m, origin
        self.snap = O.freeze(O.content(o))
        self.deleted = []


def lines(*texts):
    out = []
    for t in texts:
        for x in (t or "").split("\n"):
            x = " ".join(x.split())
            if x and x not in ("ERRORS", "WARNINGS", "------", "--------"):
                out.append(x)
    return sorted(out)


def report_of(o, mode):
    """Everything verify says about an object, without changing it."""
    r = call(o.verify, mode=mode)
    if r.exc is not None and not isinstance(r.exc, ValueError):
        return [repr(r.exc)]
    return ["E " + x for x in lines(str(r.exc) if r.exc else "")] + \
        ["W " + x for w in r.warns for x in lines(w)]


class History:
    OPS = {}

    def __init__(self, ctx, prop, mode="read", invalid=.2, special=True):
        self.ctx, self.rng, self.prop = ctx, ctx.rng, prop
        self.sf, self.cat = ctx.sf, ctx.cat
        self.g = gen.Gen(ctx, mode, special=special)
        self.invalid = invalid
        self.slots = []
        self.trace = []
        self.files = 0
        self.last = None

    # ---------------------------------------------------------- reporting
    def fail(self, labels, msg, **detail):
        if self.prop in labels or "ANY" in labels:
            detail.setdefault("history", " | ".join(self.trace[-14:]))
            self.ctx.fail(msg, **detail)
        self.ctx.count("left_to_other_checks")
        if os.environ.get("VERIF_DEBUG"):
            print(self.prop, "LEFT", labels, msg[:600],
                  " | ".join(self.trace[-6:])[-1500:], self.ctx.batch,
                  getattr(self.ctx, "idx", None), file=sys.stderr)
        raise Drop(msg)

    def check(self, labels, cond, msg, **detail):
        self.ctx.count("monitor_evaluations")
        if not cond:
            self.fail(labels, msg, **detail)

    def note(self, *what):
        self.trace.append(" ".join(short(w, 60) if not isinstance(w, str)
                                   else w for w in what))

    # ------------------------------------------------------------ monitor
    def observe(self, slot, allowed, labels, kind):
        """State after an operation on ``slot``.

        Only the names in ``allowed`` may have changed and have to agree with
        the model, all other objects have to be as before.
        """
        for s in self.slots:
            now = O.content(s.o)
            ok = allowed if s is slot else ()
            bad = [n for n in O.diff_content(s.snap, now) if n not in ok]
            lab = labels if s is slot else ("C09",)
            self.check(lab, not bad,
                       f"{kind} changed "
                       f"{'the object' if s is slot else 'another object'}: "
                       f"{bad[:4]}",
                       before={n: s.snap.get(n, "missing") for n in bad[:3]},
                       after={n: now.get(n, "missing") for n in bad[:3]},
                       origin=s.origin)
            for n in ok:
                if n not in s.m.entries:
                    self.check(lab, n not in now,
                               f"{n} still exists after {kind}")
                    continue
                self.check(lab, n in now, f"{n} is missing after {kind}")
                t, d, _ = s.m.meta(n)
                self.check(lab, O.same_value(s.m.entries[n], now[n], t, d),
                           f"{n} has another value after {kind}",
                           expected=s.m.entries[n], got=now[n])
            p = s.o.protected
            self.check(("C07",) if s is slot else ("C07", "C09"),
                       bool(p) and isinstance(p, (bool, np.bool_)),
                       f"object is not protected after {kind}")
            if self.prop == "C07" and self.rng.random() < .1:
                # the state can be assigned again
                for value in (p, not p, p):
                    r = call(setattr, s.o, "protected", value)
                    self.check(("C07",), r.exc is None,
                               f"protected = {value!r} {r!r} after {kind}")
                    q = call(lambda x=s.o: x.protected).value
                    self.check(("C07",), q is not None and q == value,
                               f"protected is {q!r} after setting {value!r}")
                self.ctx.count("protection_switched")
            s.snap = O.freeze(now) if s is slot else s.snap
        self.ctx.count("states_observed", len(self.slots))

    def refused(self, slot, kind, fn, *args, labels=("C07",), **kwargs):
        """An operation that has to raise and to change nothing."""
        before = None
        if self.prop == "C07" and self.rng.random() < .3:
            before = [report_of(slot.o, m) for m in ("write", "read")]
        r = call(fn, *args, **kwargs)
        self.note(f"refused {kind}", short(args, 100))
        self.check(labels, r.exc is not None,
                   f"{kind} {short(args, 200)} did not raise",
                   origin=slot.origin)
        self.ctx.count("refused_" + kind.split(" ")[0])
        self.ctx.count("refused")
        self.observe(slot, (), ("C07",), "refused " + kind)
        if before is not None:
            after = [report_of(slot.o, m) for m in ("write", "read")]
            self.check(("C07",), before == after, "the object verifies "
                       f"differently after refused {kind}", before=before,
                       after=after)

    def accepted(self, slot, labels, kind, allowed, fn, *args, **kwargs):
        r = call(fn, *args, **kwargs)
        self.note(kind, short(args, 100))
        self.check(labels, r.exc is None, f"{kind} {short(args, 200)} {r!r}",
                   origin=slot.origin)
        self.observe(slot, allowed, labels, kind)
        return r

    # -------------------------------------------------------------- slots
    def put(self, slot):
        if len(self.slots) < 4:
            self.slots.append(slot)
        else:
            self.slots[self.rng.randrange(4)] = slot
        return slot

    def pick(self):
        if self.last in self.slots and self.rng.random() < .6:
            return self.last
        self.last = self.rng.choice(self.slots)
        return self.last

    def agree(self, slot, labels, what):
        d = O.diff_semantic(slot.m, O.content(slot.o))
        self.check(labels, not d, f"{what} differs from the model: {d[:3]}")
        self.check(("C07",), bool(slot.o.protected),
                   f"{what} is not protected")

    # ---------------------------------------------------------- valid ops
    def op_create(self, conv=None):
        conv = conv or self.g.convention()
        mand = self.rng.random() < .2
        r = call(self.sf.Sofa, conv.name, mandatory=mand,
                 version=conv.version, verify=False)
        self.note("create", conv.stem)
        self.check(("C13",), r.exc is None, f"Sofa {r!r}")
        m = gen.default_model(conv, mand)
        s = Slot(r.value, m, "created")
        now = O.content(s.o)
        for n in gen.DYNAMIC:
            m.entries[n] = now.get(n)
        # objects that were used before do not change the defaults
        self.agree(s, ("C09", "C13"), "new object")
        self.put(s)
        self.observe(s, (), ("C09",), "creating an object")
        self.ctx.count("created")

    def op_realise(self):
        m = self.g.random()
        if m is None:
            return self.op_create()
        o = gen.realise(self.sf, m, self.rng)
        s = Slot(o, m, "created")
        self.note("realise", m.conv.stem)
        self.agree(s, ("C08", "C09"), "new object")
        self.put(s)
        self.observe(s, (), ("C09",), "creating an object")

    def op_copy(self):
        s = self.pick()
        r = call(s.o.copy)
        self.note("copy")
        self.check(("C09",), r.exc is None, f"copy {r!r}")
        new = Slot(r.value, s.m.copy(), "copied " + s.origin)
        self.check(("C09",), not O.diff_content(s.snap, new.snap),
                   "copy differs")
        self.check(("C07",), bool(new.o.protected), "copy is not protected")
        self.put(new)
        self.observe(new, (), ("C09",), "copying")
        self.last = self.rng.choice([s, new])

    def op_roundtrip(self):
        s = self.pick()
        if O.issues(s.m, self.cat, "write")[0] or gen.orphans(s.m):
            return False
        self.files += 1
        path = self.ctx.path(f"h{self.files}.sofa")
        w = call(self.sf.write_sofa, path, s.o)
        self.note("write", s.m.conv.stem)
        self.check(("C01", "C08"), w.exc is None, f"write_sofa {w!r}")
        self.observe(s, (), ("C09",), "write_sofa")
        r = call(self.sf.read_sofa, path, verbose=False)
        self.check(("C01", "C08"), r.exc is None, f"read_sofa {r!r}")
        new = Slot(r.value, s.m.copy(), "read")
        d = O.diff_semantic(new.m, O.content(new.o))
        cust = [x for x in d if x.split(":")[0] in s.m.custom]
        self.check(("C01", "C08") if cust else ("C01",), not d,
                   f"content differs after write and read: {d[:3]}")
        self.check(("C07",), bool(new.o.protected),
                   "object is not protected after reading")
        self.put(new)
        self.observe(new, (), ("C09",), "read_sofa")
        self.ctx.count("read")
        self.last = new

    def op_upgrade(self):
        s = self.pick()
        name, version = s.m.conv.name, s.m.conv.version
        if self.rng.random() < .6:
            old = [c for c in self.cat.conventions
                   if any(c.version in f[0] for f in
                          self.cat.upgrade.get(c.name, {}).get(
                              "from_to", []))]
            if old:
                self.op_create(self.rng.choice(old))
                s = self.slots[-1] if self.slots[-1].origin == "created" \
                    else s
                s = next((x for x in self.slots if x.m.conv in old), s)
                name, version = s.m.conv.name, s.m.conv.version
        ft = [f for f in self.cat.upgrade.get(name, {}).get("from_to", [])
              if version in f[0]]
        if not ft or any(O.mandatory(s.m.meta(n)[2]) is False and
                         False for n in s.m.entries):
            return False
        if O.issues(s.m, self.cat, "read")[0]:
            return False
        r = call(s.o.upgrade_convention)
        self.observe(s, (), ("C09", "C12"), "upgrade_convention()")
        r = call(s.o.upgrade_convention, self.rng.choice(
            ["NoSuch_1.0", "GeneralTF_99.0", "x"]))
        self.note("refused upgrade", s.m.conv.stem)
        self.observe(s, (), ("C07", "C12"), "refused upgrade")
        target = self.rng.choice(ft[0][1])
        r = call(s.o.upgrade_convention, target, verify=False)
        self.note("upgrade", target)
        self.check(("C12",), r.exc is None, f"upgrade_convention {r!r}")
        conv = self.cat.get(*target.rsplit("_", 1))
        m = O.Obj(conv)
        m.entries = O.freeze(O.content(s.o))
        m.custom = {n: s.m.custom.get(n) for n in m.entries
                    if n not in conv.api()}
        self.check(("C12",), all(m.custom.values()),
                   "upgrade left data of the old convention")
        s.m, s.origin = m, "upgraded"
        s.snap = O.freeze(O.content(s.o))
        self.observe(s, (), ("C12",), "upgrade")
        self.ctx.count("upgraded")
        self.last = s

    def op_repair(self):
        """Damage a file, read it as netCDF and repair the object."""
        s = self.pick()
        if O.issues(s.m, self.cat, "write")[0] or gen.orphans(s.m):
            return False
        self.files += 1
        path = self.ctx.path(f"h{self.files}.sofa")
        w = call(self.sf.write_sofa, path, s.o)
        self.check(("C01",), w.exc is None, f"write_sofa {w!r}")
        m = s.m.copy()
        kind = self.rng.choice(["value", "missing", "none"])
        mand = [n for n, e in m.conv.api().items()
                if n.startswith("GLOBAL_") and O.mandatory(e["flags"])
                and not O.read_only(e["flags"]) and n in m.entries
                and n != "GLOBAL_SOFAConventions"]
        hurt = self.rng.choice(mand)
        with Dataset(path, "a") as f:
            if kind == "missing":
                f.delncattr(hurt[7:])
                m.entries[hurt] = m.conv.api()[hurt]["default"]
            elif kind == "value":
                f.setncattr("DataType", "nonsense")
        r = call(self.sf.read_sofa_as_netcdf, path)
        self.note("repair", kind)
        self.check(("C18",), r.exc is None, f"read_sofa_as_netcdf {r!r}")
        o = r.value
        if kind == "value":
            o.protected = False
            o.GLOBAL_DataType = m.entries["GLOBAL_DataType"]
            o.protected = True
        fix = call(o.add_missing, True, False, False)
        self.check(("C18", "C20"), fix.exc is None, f"add_missing {fix!r}")
        v = call(o.verify, mode="read")
        self.check(("C18",), v.exc is None, f"repaired object: {v!r}")
        new = Slot(o, m, "repaired")
        self.agree(new, ("C18",), "repaired object")
        self.put(new)
        self.observe(new, (), ("C09",), "repairing")
        self.ctx.count("repaired")
        self.last = new

    def op_set(self):
        """Assign data that fits or does not fit."""
        rng, s = self.rng, self.pick()
        new = s.m.copy()
        r = rng.random()
        if r < self.invalid:
            rng.choice([lambda: mutate.shape(rng, self.ctx.np, new),
                        lambda: mutate.type_(rng, self.ctx.np, new)])()
        elif r < .4:
            new = self.g.resize(new)
        elif r < .55 and s.m.custom:
            self.change_custom(new)
        elif r < .7:
            new = self.g.set_text(new)
        else:
            new = self.g.one_value(new)
        self.assign(s, new, "assignment")

    def change_custom(self, new):
        n = self.rng.choice(sorted(new.custom))
        t, d = new.custom[n]
        if t == "attribute":
            new.entries[n] = gen.random_text(self.rng)
        elif d is not None:
            sizes = gen.dim_sizes(new)
            if all(x.upper() in sizes for x in d if x != "S"):
                new.entries[n] = gen.random_variable(
                    self.rng, self.ctx.np, t, d, sizes)

    def op_fix(self):
        """Give data of the wrong type or shape back a correct value."""
        bad = [s for s in self.slots
               if O.issues(s.m, self.cat, "read")[0]]
        if not bad:
            return False
        s = self.rng.choice(bad)
        new = s.m.copy()
        for n in new.entries:
            if not O.type_ok(new.entries[n], new.meta(n)[0]):
                new.entries[n] = mutate.fit_type(
                    self.rng, self.ctx.np, new, n) \
                    if new.meta(n)[0] == "attribute" else \
                    ("a" if new.meta(n)[0] == "string" else 1)
        new = self.g.fill(new, {**{d: 1 for d in "MRENCIS"},
                                **gen.dim_sizes(new), "C": 3, "I": 1})
        self.assign(s, new, "repairing values")

    def assign(self, s, new, kind):
        """Set all values that differ between two models."""
        ro = False
        for n in new.entries:
            if n not in s.m.entries or new.entries[n] is s.m.entries[n]:
                continue
            try:
                if O.identical(new.entries[n], s.m.entries[n]):
                    continue
            except Exception:                # noqa: BLE001
                pass
            if O.read_only(new.meta(n)[2]):
                ro = True
                s.o.protected = False
            s.m.entries[n] = new.entries[n]
            typed = O.type_ok(new.entries[n], new.meta(n)[0])
            r = call(setattr, s.o, n, O.cp(new.entries[n]))
            if ro:
                s.o.protected = True
                ro = False
            self.note("set", n, np.shape(new.entries[n])
                      if new.meta(n)[1] else short(new.entries[n], 30))
            self.check(("ANY",), r.exc is None, f"assigning {n} {r!r}")
            lab = ("C08", "C09") if n in new.custom else ("C09",)
            if typed:
                self.observe(s, (n,), lab, kind)
            else:
                s.snap[n] = O.cp(O.content(s.o)[n])
                self.observe(s, (), lab, kind)
        self.ctx.count("assigned")

    def op_inplace(self):
        """Change arrays in place: elements, strings, masks and shapes."""
        rng, s = self.rng, self.pick()
        have = O.content(s.o)
        names = [n for n in s.m.entries
                 if isinstance(have.get(n), np.ndarray)
                 and have[n].size and have[n].flags.writeable
                 and (s.m.meta(n)[0] == "double"
                      and have[n].dtype.kind in "if"
                      or s.m.meta(n)[0] == "string"
                      and have[n].dtype.kind in "US")]
        if not names:
            return False
        n = rng.choice(names)
        a = getattr(s.o, n)
        kind = "element"
        # (elements of the array shown by [], other shapes only in histories
        # that have invalid objects)
        if a.ndim and self.invalid and rng.random() < .3:
            kind = rng.choice(["shape", "size", "order"])
        if s.m.meta(n)[0] == "double" and rng.random() < .15 and \
                isinstance(a, np.ma.MaskedArray):
            kind = "mask"
        idx = tuple(rng.randrange(k) for k in a.shape)
        if kind == "mask":
            a[idx] = np.ma.masked
        elif isinstance(a, np.ma.MaskedArray):
            return False
        elif kind == "element" and a.dtype.kind in "US":
            a[idx] = a.dtype.type(rng.choice(["", "a", "other", "text 2"])) \
                if a.dtype.kind == "U" else rng.choice([b"", b"b", b"name"])
        elif kind == "element":
            a[idx] = rng.choice([1, 7, -3, 99])
        else:
            shape = list(a.shape)
            if kind == "shape":
                shape = rng.choice([[1] + shape, shape + [1], [a.size],
                                    shape[::-1]])
            elif kind == "order":
                shape = [1] * (a.ndim - 1) + [a.size]
            else:
                shape[rng.randrange(a.ndim)] += rng.choice([1, 2])
            try:
                if kind == "size":
                    a.resize(shape, refcheck=False)
                else:
                    a.shape = tuple(shape)
            except (ValueError, AttributeError):
                return False              # (a view)
        s.m.entries[n] = a.copy()
        self.note("in place", kind, n, a.shape)
        self.observe(s, (n,), ("C09",), "a change in place")
        self.ctx.count("changed_in_place")
        self.ctx.count("in_place_" + kind)
        self.last = s

    def op_delete(self):
        s = self.pick()
        names = [n for n in s.m.entries if not O.mandatory(s.m.meta(n)[2])]
        if not names:
            return False
        cust = [n for n in names if n in s.m.custom]
        n = self.rng.choice(cust if cust and self.rng.random() < .6
                            else names)
        lab = ("C08",) if n in s.m.custom else ("C07", "C08")
        s.m.entries.pop(n)
        was = s.m.custom.pop(n, None)
        s.deleted.append((n, was))
        if self.rng.random() < .5:
            self.accepted(s, lab, "delete", (n,), s.o.delete, n)
        else:
            self.accepted(s, lab, "delattr", (n,), delattr, s.o, n)
        self.ctx.count("deleted")
        if was is not None:
            self.ctx.count("deleted_custom")

    def op_add(self):
        """Add custom data (also under names that were used before)."""
        rng, s = self.rng, self.pick()
        if rng.random() < .3 and s.deleted:
            n, was = rng.choice(s.deleted)
            if n in s.m.entries:
                return False
            return self.add_again(s, n)
        if O.issues(s.m, self.cat, "read")[0] and rng.random() < .7:
            return False
        try:
            new = self.g.add_custom(s.m.copy())
        except (ValueError, TypeError, IndexError, KeyError):
            return False                 # (data of wrong type)
        names = [n for n in new.entries if n not in s.m.entries]
        if not names:
            return False
        n = names[0]
        t, d = new.custom[n]
        if n in s.m.conv.api():
            return False
        self.add(s, n, t, d, new.entries[n])

    def add(self, s, n, t, d, value):
        known = n in s.m.conv.api()
        if not known:
            s.m.custom[n] = (t, O.custom_dims(d))
        s.m.entries[n] = value
        if t == "attribute":
            if self.rng.random() < .8:
                self.accepted(s, ("C08",), "add_attribute", (n,),
                              s.o.add_attribute, n, O.cp(value))
            else:
                self.accepted(s, ("C08",), "add_variable", (n,),
                              s.o.add_variable, n, O.cp(value), t, None)
        else:
            dims = "".join(self.rng.choice([x.upper(), x.lower()])
                           for x in d)
            self.accepted(s, ("C08",), "add_variable", (n,),
                          s.o.add_variable, n, O.cp(value), t, dims)
        s.deleted = [x for x in s.deleted if x[0] != n]
        self.ctx.count("added")

    def add_again(self, s, n):
        """The name can be used again, with another definition."""
        rng = self.rng
        api = s.m.conv.api()
        if n in api:
            t, d, _ = s.m.meta(n)
            if d is not None:
                d = d.split(", ")[0].upper()
                try:
                    sizes = gen.dim_sizes(s.m)
                    if not all(x in sizes for x in d if x != "S"):
                        return False
                    v = gen.random_variable(rng, self.ctx.np, t, d, sizes)
                except (ValueError, TypeError, IndexError):
                    return False
            else:
                v = str(api[n]["default"])
                if not self.may_add(s, n, t, d, v):
                    return False
        elif "_" in n:
            t, d, v = "attribute", None, gen.random_text(rng)
            if n.endswith("Units"):
                v = v.lower()
            if not self.may_add(s, n, t, d, v):
                return False
        else:
            try:
                t = rng.choice(["double", "string"])
                d = self.g.custom_dims(s.m, t)
                sizes = dict(gen.dim_sizes(s.m))
            except (ValueError, TypeError, IndexError):
                return False
            for x in d:
                if x != "S":
                    sizes.setdefault(x.upper(), 2)
            v = gen.random_variable(rng, self.ctx.np, t, O.custom_dims(d),
                                    sizes)
        self.ctx.count("added_again")
        self.add(s, n, t, d, v)

    def may_add(self, s, n, t, d, v):
        """The rules for additions."""
        m = s.m
        # names that netCDF and SOFA files can not hold
        if "/" in n or any(x == "" or x.strip() != x for x in n.split("_")):
            return False
        if t != "attribute" and "." in n:
            return False
        if n in m.entries or t not in ("attribute", "double", "string"):
            return False
        if t == "attribute":
            var = n[:n.rindex("_")] if "_" in n else None
            if var is None:
                return False
            if n.count("_") == 2:
                return var.startswith("Data_") and var in m.entries
            if n.count("_") != 1:
                return False
            return var == "GLOBAL" or var in m.entries
        if "_" in n or d is None:
            return False
        d = d.upper()
        if t == "string":
            return d.endswith("S")
        return "S" not in d

    def op_complete(self):
        """Missing mandatory data is added if verify does not raise."""
        s, rng = self.pick(), self.rng
        api = s.m.conv.api()
        names = [n for n in s.m.entries if n in api
                 and O.mandatory(api[n]["flags"])
                 and n not in ("GLOBAL_SOFAConventions",
                               "GLOBAL_SOFAConventionsVersion",
                               "GLOBAL_Version")]
        s.o.protected = False
        for n in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 4]))):
            r = call(s.o.delete, n)
            self.check(("C07",), r.exc is None, f"delete {r!r}")
            del s.m.entries[n]
        s.o.protected = True
        s.snap = O.freeze(O.content(s.o))
        want = [n for n, e in api.items()
                if n not in s.m.entries and O.mandatory(e["flags"])]
        for n in want:
            e = api[n]
            s.m.entries[n] = gen.default_value(
                e, len(e["dimensions"].split(", ")[0])
                if e["dimensions"] else 0)
        h = rng.choice(["print", "return", "ignore"])
        if rng.random() < .7:
            self.accepted(s, ("C07",), f"verify({h})", want, s.o.verify, h,
                          rng.choice(["read", "write"]))
        else:
            self.note("inspect", h)
            call(s.o.inspect, issue_handling=h)
            self.observe(s, want, ("C07",), f"inspect({h})")
        self.ctx.count("completed", len(want))

    def op_add_missing(self):
        s = self.pick()
        rng = self.rng
        mand, opt = rng.choice([(True, True), (True, False), (False, True),
                                (False, False)])
        verbose = rng.random() < .8
        api = s.m.conv.api()
        if self.prop == "C20" and rng.random() < .7:
            # remove something first
            names = [n for n in s.m.entries if n in api
                     and n not in ("GLOBAL_SOFAConventions",
                                   "GLOBAL_SOFAConventionsVersion",
                                   "GLOBAL_Version")]
            gone = rng.sample(names, rng.randint(0, min(5, len(names))))
            s.o.protected = False
            for n in gone:
                r = call(s.o.delete, n)
                self.check(("C07", "C20"), r.exc is None, f"delete {r!r}")
                del s.m.entries[n]
            s.o.protected = True
            s.snap = O.freeze(O.content(s.o))
            self.note("unprotected delete", gone)
        want = []
        for n, e in api.items():
            m = O.mandatory(e["flags"])
            if n not in s.m.entries and (mand if m else opt):
                want.append(n)
                ndim = len(e["dimensions"].split(", ")[0]) \
                    if e["dimensions"] else 0
                s.m.entries[n] = gen.default_value(e, ndim)
        if rng.random() < .5:
            args, kw = (mand, opt), {"verbose": verbose}
        else:
            args, kw = (), {"mandatory": mand, "optional": opt,
                            "verbose": verbose}
        if mand and opt and verbose and rng.random() < .5:
            args, kw = (), {}
        r = self.accepted(s, ("C20",), f"add_missing({mand}, {opt})", want,
                          s.o.add_missing, *args, **kw)
        listed = re.findall(r"^- (\S+)", r.out, re.M)
        if verbose:
            self.check(("C20",), sorted(listed) == sorted(want),
                       f"add_missing printed {sorted(listed)} but added "
                       f"{sorted(want)}", out=r.out)
            for n in want:
                m = O.mandatory(api[n]["flags"])
                word = "mandatory" if m else "optional"
                self.check(("C20",), re.search(
                    rf"^- {n} .*{word}", r.out, re.M) is not None,
                    f"{n} is not printed as {word}", out=r.out)
        else:
            self.check(("C20",), r.out == "", f"printed {r.out!r}")
        self.check(("C20",), r.value is None and not r.warns,
                   f"add_missing {r!r} {r.warns}")
        self.ctx.count("missing_added", len(want))
        if self.prop == "C20":
            again = self.accepted(s, ("C20",), "add_missing (again)", (),
                                  s.o.add_missing, *args, **kw)
            self.check(("C20",), not re.findall(r"^- (\S+)", again.out,
                                                re.M),
                       "second call printed added data", out=again.out)
            left = [n for n, e in api.items() if n not in s.m.entries]
            miss = [n for n in left if O.mandatory(api[n]["flags"])]
            v = call(s.o.verify, mode="read")
            rep = str(v.exc) if v.exc is not None else ""
            self.check(("C20",), ("missing mandatory" in rep) == bool(miss),
                       "report of missing data is wrong", report=rep,
                       missing=miss)
            if mand and opt:
                self.check(("C20",), set(api) <= set(O.content(s.o)),
                           "not all entries of the convention")
            if miss:
                # (other operations need all mandatory data)
                for n in miss:
                    e = api[n]
                    nd = len(e["dimensions"].split(", ")[0]) \
                        if e["dimensions"] else 0
                    s.m.entries[n] = gen.default_value(e, nd)
                self.accepted(s, ("C20",), "add_missing (rest)", miss,
                              s.o.add_missing, True, False, False)
        return None

    # -------------------------------------------------------- refused ops
    def names_elsewhere(self, s):
        out = [n for t in self.slots if t is not s for n in t.m.custom]
        out += [n for n, _ in s.deleted]
        out += [n for n in s.m.conv.api() if n not in s.m.entries]
        out += [n for c in self.cat.conventions[:3] for n in c.api()]
        out += ["Foo", "Bar", "GLOBAL_Foo", "Data_Foo", "x", "X",
                "Data_IR_Foo", "_foo", "GLOBAL", "ListenerPosition_Foo"]
        return [n for n in out if n not in s.m.entries
                and not hasattr(type(s.o), n)]

    def op_refused(self):
        rng, s = self.rng, self.pick()
        o, m = s.o, s.m
        api = m.conv.api()
        kind = rng.choice(["read only", "unknown", "unknown", "mandatory",
                           "not existing", "exists", "exists", "malformed",
                           "malformed", "malformed", "value", "protected",
                           "call", "call"])
        ro = [n for n in m.entries if n in api and O.read_only(
            api[n]["flags"])]
        mand = [n for n in m.entries if n in api and O.mandatory(
            api[n]["flags"])]
        if kind == "read only":
            odd = [n for n in ro if api[n]["type"] != "attribute"]
            n = rng.choice(odd if odd and rng.random() < .5 else ro)
            v = rng.choice(["text", m.entries[n], 1, [1, 2],
                            np.array([1.5])])
            self.refused(s, "read-only assignment", setattr, o, n, v)
        elif kind == "unknown":
            n = rng.choice(self.names_elsewhere(s))
            self.refused(s, "assignment", setattr, o, n,
                         rng.choice(["text", 1, [1, 2]]),
                         labels=("C07", "C09"))
        elif kind == "mandatory":
            n = rng.choice(mand)
            f = rng.choice([(o.delete, n), (delattr, o, n)])
            self.refused(s, "deletion", *f)
        elif kind == "not existing":
            n = rng.choice(self.names_elsewhere(s))
            f = rng.choice([(o.delete, n), (delattr, o, n)])
            self.refused(s, "deletion", *f, labels=("C07", "C09"))
        elif kind == "exists":
            n = rng.choice(sorted(m.entries) + sorted(m.custom) * 2)
            t, d, _ = m.meta(n)
            v = rng.choice([O.cp(m.entries[n]), "other", 3])
            if t == "attribute" or rng.random() < .1:
                self.refused(s, "addition", o.add_attribute, n, v,
                             labels=("C07", "C08"))
            else:
                self.refused(s, "addition", o.add_variable, n, v, t,
                             d.split(", ")[0].upper(),
                             labels=("C07", "C08"))
        elif kind == "malformed":
            self.malformed(s)
        elif kind == "value":
            bad = rng.choice([[[1], [1, 2]], [[1, 2], 3],
                              [np.zeros(2), np.zeros((2, 2))]])
            if rng.random() < .5:
                n = rng.choice([n for n in m.entries if n not in ro])
                self.refused(s, "assignment", setattr, o, n, bad)
            else:
                n = rng.choice(["Foo", "Bar", "VarX"])
                if n in m.entries:
                    return False
                self.refused(s, "addition", o.add_variable, n, bad,
                             "double", rng.choice(["MR", "T", "MT"]))
                if rng.random() < .7:
                    # nothing is left of it
                    self.refused(s, "addition", o.add_attribute,
                                 n + "_Units", "metre",
                                 labels=("C07", "C08"))
        elif kind == "protected":
            self.refused(s, "protection", setattr, o, "protected",
                         rng.choice(["no", 0, None, 1, "False", [False],
                                     np.array([True])]))
        else:
            self.refused_call(s)
        return None

    def malformed(self, s):
        rng, o, m = self.rng, s.o, s.m
        names = ["Foo", "Bar", "VarX", "Data", "x"] + \
            [n for n in self.names_elsewhere(s)
             if "_" not in n and n not in m.conv.api()
             and not n.startswith(("GLOBAL", "API", "PRIVATE"))]
        names = [n for n in names if n not in m.entries]
        n = rng.choice(names)
        k = rng.randrange(8)
        lab = ("C07", "C08")
        if k == 0:
            self.refused(s, "addition", o.add_variable, n, 1, rng.choice(
                ["float", "DOUBLE", "attr", "int", "Double", "", None, "S1",
                 "f8"]), "I", labels=lab)
        elif k == 1:
            self.refused(s, "addition", o.add_variable, n, 1, rng.choice(
                ["double", "string"]), None, labels=lab)
        elif k == 2:
            t = rng.choice(["double", "string"])
            d = rng.choice(["MS", "S", "SM", "s", "ISM"]) if t == "double" \
                else rng.choice(["M", "SM", "IC", "SI", "mr"])
            self.refused(s, "addition", o.add_variable, n, "a" if
                         t == "string" else 1, t, d, labels=lab)
        elif k == 3:
            name = rng.choice(["My_" + n, "Data_" + n, n + "_x", "_" + n,
                               n + "_", "GLOBAL_" + n])
            if name in m.entries or hasattr(type(o), name):
                return
            self.refused(s, "addition", o.add_variable, name, 1, "double",
                         "I", labels=lab)
        elif k == 4:
            # attribute without or with too many underscores
            var = rng.choice([v for v in m.entries if m.meta(v)[1]])
            name = rng.choice([n, "GLOBAL" + n, f"{var}_a_b",
                               f"{n}_a_b", f"GLOBAL_{n}_x_y"])
            if name.startswith("Data_") and name.count("_") == 2 or \
                    name in m.entries:
                return
            self.refused(s, "addition", o.add_attribute, name, "text",
                         labels=lab)
        elif k in (5, 6):
            # attribute of a variable that does not exist
            gone = [x for x, was in s.deleted if "_" not in x
                    and x not in m.entries and x not in m.conv.api()]
            other = [x for t in self.slots for x in t.m.custom
                     if "_" not in x and x not in m.entries
                     and x not in m.conv.api()]
            var = rng.choice([n] + gone * 3 + other * 3)
            if var in m.entries or f"{var}_Units" in m.entries:
                return
            self.refused(s, "addition", o.add_attribute, f"{var}_Units",
                         "metre", labels=("C07", "C08", "C09"))
        else:
            name = rng.choice(["Data_Foo_Units", "Data_Foo_Bar_x"])
            self.refused(s, "addition", o.add_attribute, name, "text",
                         labels=lab)

    def refused_call(self, s):
        rng, o = self.rng, s.o
        k = rng.randrange(5)
        if k == 0:
            self.refused(s, "dimension", o.get_dimension,
                         rng.choice(["Q2", "m", "", "foo", "MR"]),
                         labels=("C19",))
        elif k == 1:
            self.refused(s, "writing", self.sf.write_sofa,
                         self.ctx.path("r.sofa"), o, compression=rng.choice(
                             [10, -1, "x", 4.5]), labels=("C17",))
        elif k == 2:
            self.refused(s, "comparison", self.sf.equals, o, o,
                         exclude=rng.choice(["foo", "", "global_"]),
                         labels=("C10",))
        elif k == 3:
            if O.issues(s.m, self.cat, "write")[0]:
                self.refused(s, "verification", o.verify,
                             labels=("C03", "C04", "C05"))
                self.refused(s, "writing", self.sf.write_sofa,
                             self.ctx.path("r.sofa"), o, labels=("C17",))
        else:
            r = call(o.upgrade_convention, rng.choice(
                ["NoSuch_1.0", "GeneralTF_77.0", "nothing"]))
            self.note("upgrade with invalid target")
            self.check(("C12",), r.exc is None or
                       isinstance(r.exc, ValueError), f"{r!r}")
            self.observe(s, (), ("C07", "C12"), "upgrade (invalid target)")

    # ------------------------------------------------------------- queries
    def op_query(self):
        rng, s = self.rng, self.pick()
        o = s.o
        other = rng.choice(self.slots)
        k = rng.choice(["verify", "verify", "verify", "inspect", "list",
                        "dimension", "equals", "copy", "write", "repr",
                        "info", "upgrade", "list conventions"])
        self.files += 1
        if k == "verify":
            h = rng.choice(["raise", "print", "return", "ignore"])
            call(o.verify, h, rng.choice(["read", "write"]))
            k = f"verify({h})"
        elif k == "inspect":
            kw = {"file": self.ctx.path(f"i{self.files}.txt")} \
                if rng.random() < .5 else {}
            call(o.inspect, issue_handling=rng.choice(
                ["ignore", "print", "return", "raise"]), **kw)
        elif k == "list":
            call(getattr, o, "list_dimensions")
        elif k == "dimension":
            call(o.get_dimension, rng.choice("MRENCISTQ"))
        elif k == "equals":
            call(self.sf.equals, o, other.o, rng.random() < .5,
                 rng.choice([None, "GLOBAL", "ATTR", "DATE", "date"]))
        elif k == "copy":
            call(o.copy)
        elif k == "write":
            call(self.sf.write_sofa, self.ctx.path(f"q{self.files}"), o,
                 rng.choice([0, 4, 9]))
        elif k == "repr":
            call(repr, o)
            call(str, o)
        elif k == "info":
            call(o.info, rng.choice(["all", "mandatory", "optional",
                                     "read only", "data"]))
        elif k == "upgrade":
            call(o.upgrade_convention)
        else:
            call(self.sf.list_conventions)
            call(self.sf.version)
        self.note("query", k)
        self.observe(s, (), ("C09",), k)
        self.ctx.count("queries")
        self.ctx.count("query_" + k.split("(")[0].replace(" ", "_"))

    # ----------------------------------------------------------- execution
    def run(self, weights, steps, after=None):
        ops = [(getattr(self, "op_" + k), w) for k, w in weights.items()]
        fns, ws = [x for x, _ in ops], [w for _, w in ops]
        kinds = []
        try:
            for _ in range(self.rng.choice([1, 1, 2])):
                self.rng.choice([self.op_create, self.op_realise])()
            for _ in range(steps):
                f = self.rng.choices(fns, ws)[0]
                if f() is False:
                    continue
                kinds.append(f.__name__[3:])
                self.ctx.count("operations")
                if after is not None:
                    after(self)
        except Drop:
            pass
        self.ctx.key(tuple(kinds), tuple(self.trace[-3:]))
        self.ctx.sample = " | ".join(self.trace[:12])
        return self
