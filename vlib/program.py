"""Random programs of calls of sofar whose results are recorded."""
import contextlib
import os
import random
import re

from . import gen, mutate
from .scenario import DYNAMIC, digest

# (the time at which an object was created)
DATE = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")


def content(o):
    return {k: digest(v) for k, v in sorted(vars(o).items())
            if not k.startswith("_") and k not in DYNAMIC}


STEPS = ["create", "verify", "verify", "dimensions", "add", "equals", "assign",
         "upgrade", "missing", "delete", "copy", "files", "report", "broken"]


class Program:
    """Steps on the objects of one thread."""

    def __init__(self, ctx, conv, seed, folder):
        self.ctx, self.sf = ctx, ctx.sf
        self.seed, self.folder = seed, folder
        rng = self.rng = random.Random(seed)
        g = gen.Gen(ctx, rng.choice(["read", "write"]))
        g.rng = rng
        self.models, self.conv = [], conv
        for _ in range(rng.randint(1, 2)):
            m = g.random(conv) or gen.default_model(conv)
            if rng.random() < .35:
                for _ in range(rng.randint(1, 2)):
                    rng.choice([lambda: mutate.shape(rng, ctx.np, m),
                                lambda: mutate.type_(rng, ctx.np, m),
                                lambda: g.set_text(m)])()
            for k in gen.DYNAMIC:
                if m.entries.get(k) is gen.DYN:
                    m.entries[k] = "2020-02-02 20:20:20"
            self.models.append(m)
        self.steps = [rng.choice(STEPS) for _ in range(rng.randint(4, 9))]
        self.draw = rng.getrandbits(32)

    def do(self, label, fn, *args, **kw):
        try:
            v = fn(*args, **kw)
        except Exception as e:               # noqa: BLE001
            self.rows.append((label, type(e).__name__,
                              str(e).replace(self.work, "<dir>").replace(
                                  os.path.relpath(self.work, self.ctx.dir),
                                  "<dir>")))
            return None
        if isinstance(v, self.sf.Sofa):
            self.rows.append((label, "object", content(v), v.protected))
        else:
            self.rows.append((label, "value", digest(v)))
        return v

    def run(self, name):
        """All results, files in the folder ``name``."""
        self.rows, self.work = [], os.path.join(self.folder, name)
        os.makedirs(self.work)
        self.rng = random.Random(self.draw)
        self.objects = []
        for m in self.models:
            o = self.do("realise", gen.realise, self.sf, m)
            if o is not None:
                self.objects.append(o)
        for i, s in enumerate(self.steps):
            getattr(self, s)(i)
        for o in self.objects:
            self.rows.append(("content", content(o), bool(o.protected)))
        return self.rows

    def any(self):
        if not self.objects:
            self.create(-1)
        return self.rng.choice(self.objects)

    # ---------------------------------------------------------------- steps
    def create(self, i):
        c = self.conv
        kw = self.rng.choice([{}, {"version": c.version}, {"verify": False},
                              {"mandatory": True}])
        o = self.do(f"Sofa {c.name} {kw}", self.sf.Sofa, c.name, **kw)
        if o is None:
            o = self.sf.Sofa(c.name, version=c.version, verify=False)
        self.objects.append(o)

    def verify(self, i):
        o = self.any()
        for how in self.rng.sample(["raise", "return", "ignore", "print"],
                                   2):
            mode = self.rng.choice(["read", "write"])
            self.do(f"verify {how} {mode}", o.verify, how, mode)

    def broken(self, i):
        """Data is missing or deleted in spite of the protection."""
        o, rng = self.any(), self.rng
        o.protected = False
        for n in rng.sample(sorted(content(o)), min(3, len(content(o)))):
            if not n.startswith("GLOBAL_SOFAConventions"):
                delattr(o, n)
        o.protected = True
        self.do("verify broken", o.verify, rng.choice(
            ["raise", "return", "ignore"]), rng.choice(["read", "write"]))
        self.rows.append(("repaired", content(o)))

    def report(self, i):
        o = self.any()
        self.do("inspect", o.inspect, os.path.join(self.work, f"{i}.txt"),
                "ignore")
        with contextlib.suppress(OSError), open(os.path.join(
                self.work, f"{i}.txt"), "rb") as f:
            self.rows.append(("inspect", DATE.sub(b"<date>", f.read())))
        self.do("info", o.info)
        self.do("repr", repr, o)

    def dimensions(self, i):
        o = self.any()
        for d in self.rng.sample("MRENCISTQ", 4):
            self.do("dimension " + d, o.get_dimension, d)
        self.do("list", lambda: o.list_dimensions)

    def add(self, i):
        o, rng = self.any(), self.rng
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .5:
                n = rng.choice(["GLOBAL_Mine", "Mine_Units", "GLOBAL_Yours",
                                "ReceiverPosition_Comment", "Bad_X"])
                self.do("add_attribute " + n, o.add_attribute, n,
                        rng.choice(["a", "ä", 3]))
            else:
                n = rng.choice(["Mine", "Yours", "Foo"])
                self.do("add_variable " + n, o.add_variable, n, *rng.choice(
                    [([1., 2.], "double", "T"), (1, "double", "I"),
                     ("ü", "string", "IS"), (["a", "bb"], "string", "TS"),
                     (1, "double", "IS"), (1, "nonsense", "I")]))

    def assign(self, i):
        o, rng = self.any(), self.rng
        for n in rng.sample(sorted(content(o)), min(4, len(content(o)))):
            v = rng.choice([1, 2., "text", [1., 2.], [[1, 2, 3]],
                            getattr(o, n)])
            if rng.random() < .3:
                o.protected = False
                self.do("assign unprotected " + n, setattr, o, n, v)
                o.protected = True
            else:
                self.do("assign " + n, setattr, o, n, v)
        self.do("assign unknown", setattr, o, "NotThere", 1)

    def delete(self, i):
        o = self.any()
        for n in self.rng.sample(sorted(content(o)), 3):
            self.do("delete " + n, o.delete, n)

    def missing(self, i):
        o = self.any()
        self.do("add_missing", o.add_missing,
                self.rng.random() < .8, self.rng.random() < .8)
        self.rows.append(("added", content(o)))

    def copy(self, i):
        c = self.do("copy", self.any().copy)
        if c is not None:
            self.objects.append(c)

    def equals(self, i):
        a, b = self.any().copy(), self.any().copy()
        for o in (a, b):
            o.protected = False
            for n in DYNAMIC:
                if hasattr(o, n):
                    setattr(o, n, "2020-02-02 20:20:20")
            o.protected = True
        for x in (None, "GLOBAL", "DATE", "ATTR"):
            self.do(f"equals {x}", self.sf.equals, a, b, True, x)
        self.do("equals", self.sf.equals, a, a.copy(), False)

    def upgrade(self, i):
        o = self.do("copy", self.any().copy)
        if o is None:
            return
        t = self.do("targets", o.upgrade_convention)
        if t:
            self.do("upgrade", o.upgrade_convention, self.rng.choice(t))
            self.rows.append(("upgraded", content(o)))

    def files(self, i):
        o, sf = self.any(), self.sf
        p = os.path.join(self.work, f"{i}.sofa")
        if self.rng.random() < .5:
            p = os.path.relpath(p, self.ctx.dir)
        self.do("write", sf.write_sofa, p, o)
        if not os.path.exists(p):
            self.rows.append(("no file",))
            return
        self.objects.append(
            self.do("read", sf.read_sofa, p, verify=False) or o)
        self.do("read verified", sf.read_sofa, p, True)
        self.do("netcdf", sf.read_sofa_as_netcdf, p)

        def stream():
            with sf.SofaStream(p) as f:
                f.list_dimensions
                return [digest(x if isinstance(x, str) else x[:]) for x in (
                    getattr(f, n) for n in sorted(content(o)))]
        self.do("stream", stream)
