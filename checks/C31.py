"""C31 - calls leave nothing behind in the process."""
import contextlib
import csv
import decimal
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import socket
import ssl
import sys
import tempfile
import threading
import tracemalloc
import urllib.request
import warnings
import weakref

import netCDF4
import numpy as np

from vlib import gen, oracle as O, server as W
from vlib.program import Program
from vlib.world import World

PROP = "C31"
RULE = ("random programs (creating, changing, verifying, reporting, "
        "dimensions, custom data, deleting, adding missing data, comparing, "
        "copying, upgrading, writing, reading, streaming; accepted and "
        "refused calls) are executed several times; the state of the process "
        "is compared before and after every call, all objects and arrays "
        "have to be released afterwards, and the memory that is in use must "
        "not grow from execution to execution; distinct by steps and "
        "convention")
QUICK = (32, 5)
THOROUGH = (320, 60)
REQUIRED = ["calls", "refused_calls", "objects_released", "arrays_released",
            "executions", "traced_executions", "listings", "updates",
            "streams", "refused_files"]
RUNS = 7


def state():
    """What other parts of a program depend on."""
    mask = os.umask(0)
    os.umask(mask)
    rnd = np.random.get_state()
    return {
        "current directory": os.getcwd(),
        "environment": dict(os.environ),
        "file mode mask": mask,
        "locale": locale.setlocale(locale.LC_ALL),
        "random numbers": hash(random.getstate()),
        "random numbers of numpy": (rnd[0], rnd[1].tobytes(), *rnd[2:]),
        "warnings": (list(warnings.filters), warnings.showwarning),
        "errors of numpy": np.geterr(),
        "text of numpy arrays": repr(sorted(
            np.get_printoptions().items(), key=str)),
        "output": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "search path": list(sys.path),
        "signals": [signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "threads": threading.active_count(),
        "temporary folder": tempfile.gettempdir(),
        "temporary files": sorted(os.listdir(tempfile.gettempdir())),
        "recursion limit": sys.getrecursionlimit(),
        "trace function": (sys.gettrace(), sys.getprofile()),
        "hooks": (sys.excepthook, sys.displayhook),
        "open files": len(os.listdir("/proc/self/fd")),
        "timeout of connections": socket.getdefaulttimeout(),
        "opener of addresses": id(urllib.request._opener),
        "logging": (logging.root.level, logging.root.disabled, len(
            logging.root.handlers), logging.root.manager.disable),
        "reading of csv files": (csv.field_size_limit(),
                                 csv.list_dialects()),
        "decimal numbers": repr(decimal.getcontext()),
        "default context of connections": id(
            ssl._create_default_https_context),
        "buffers of numpy": (np.getbufsize(), np.geterrcall()),
        "buffers of netCDF": (netCDF4.get_chunk_cache(),
                              netCDF4.get_alignment()),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
    }


class Longer(Program):
    """Programs that also use the functions without objects."""

    def __init__(self, *args):
        super().__init__(*args)
        rng = self.rng
        self.world = World(rng)
        for _ in range(rng.randint(1, 3)):
            self.steps.insert(rng.randint(0, len(self.steps)),
                              rng.choice(["listing", "update", "streaming",
                                          "refused"]))

    def listing(self, i):
        o, rng = self.any(), self.rng
        self.do("list_conventions", self.sf.list_conventions)
        self.do("info", o.info, rng.choice(
            ["all", "mandatory", "optional", "read only", "GLOBAL_Title",
             "nonsense"]))
        self.do("repr", repr, o)
        self.do("unknown", self.sf.Sofa, "Nonsense")
        self.do("unknown version", self.sf.Sofa, self.conv.name,
                version="77.7")
        self.do("version", getattr, self.sf, "__version__")
        self.ctx.count("listings")

    def update(self, i):
        path = os.path.join(self.work, f"c{i}")
        self.world.install(path)
        srv = self.world.server()
        fault = self.rng.choice([None, *W.all_faults()])
        if fault is not None:
            srv.faults = {self.rng.choice(
                ["deprecated/", sorted(self.world.raw)[0] + ".csv"]): fault}
        answer = self.rng.choice(["y", "y", "n", "", "yes"])
        with srv.online(answer, tempfile.gettempdir()):
            self.do("update", self.sf.update_conventions, path,
                    self.rng.random() < .5)
        self.ctx.count("updates")


    def valid(self):
        return gen.realise(self.sf, gen.default_model(self.conv))

    def streaming(self, i):
        """Files are used as streams, with and without errors."""
        sf, rng = self.sf, self.rng
        p = os.path.join(self.work, f"s{i}.sofa")
        o = self.valid()
        o.add_variable("Few", np.ones((2, rng.choice([1, 2, 3, 5]))),
                       "double", "YZ")
        o.add_variable("Names", np.array(["a"] * rng.randint(1, 8)),
                       "string", "WS")
        sf.write_sofa(p, o, rng.choice([0, 4]))
        if rng.random() < .5:
            p = os.path.relpath(p)
        for _ in range(rng.randint(1, 4)):
            what = rng.choice([
                "inspect", "inspect to file", "list_dimensions", "dimension",
                "unknown dimension", "unknown", "error", "data",
                "inspect to folder"])
            self.do("stream " + what, self.stream, p, what)
        self.ctx.count("streams")

    def stream(self, path, what):
        with self.sf.SofaStream(path) as s:
            if what == "inspect":
                s.inspect()
            elif what == "inspect to file":
                s.inspect(path + ".txt")
            elif what == "inspect to folder":
                s.inspect(self.work)
            elif what == "list_dimensions":
                s.list_dimensions
            elif what.endswith("dimension"):
                s.get_dimension("N" if what == "dimension" else "Q")
            elif what == "unknown":
                s.Nonsense
            elif what == "error":
                raise ValueError("user")
            else:
                return float(np.sum(s.Few[:])), s.GLOBAL_Title

    def refused(self, i):
        """Files that can not be read or written."""
        sf, rng = self.sf, self.rng
        folder = os.path.join(self.work, f"f{i}")
        os.makedirs(os.path.join(folder, "b.sofa"))
        text = os.path.join(folder, "c.sofa")
        with open(text, "w") as f:
            f.write("text" * rng.randint(0, 99))
        good = os.path.join(folder, "d.sofa")
        o = self.valid()
        sf.write_sofa(good, o)
        cut = os.path.join(folder, "e.sofa")
        with open(good, "rb") as f, open(cut, "wb") as g:
            data = f.read()
            g.write(data[:rng.randrange(len(data))])
        other = os.path.join(folder, "f.sofa")
        x = o.copy()
        x.protected = False
        setattr(x, *rng.choice([("GLOBAL_SOFAConventions", "Nonsense"),
                                ("GLOBAL_SOFAConventionsVersion", "99.9"),
                                ("GLOBAL_DataType", "TF")]))
        with contextlib.suppress(Exception):
            sf.io._write_sofa(other, x, verify=False)
        bad = o.copy()
        bad.ReceiverPosition = "text"
        paths = [os.path.join(folder, "b"), text, cut, other, good,
                 os.path.join(folder, "missing", "a.sofa"),
                 os.path.join(folder, "none.sofa")]
        if rng.random() < .5:
            paths = [os.path.relpath(p) for p in paths]
        for p in rng.sample(paths, 4):
            what = rng.choice(["read", "read verified", "netcdf", "stream",
                               "write", "write bad", "write level",
                               "inspect"])
            fn = {
                "read": lambda: sf.read_sofa(p, False, verbose=False),
                "read verified": lambda: sf.read_sofa(p, True),
                "netcdf": lambda: sf.read_sofa_as_netcdf(p),
                "stream": lambda: self.stream(p, "data"),
                "write": lambda: sf.write_sofa(p, o),
                "write bad": lambda: sf.write_sofa(p, bad),
                "write level": lambda: sf.write_sofa(p, o, 12),
                "inspect": lambda: o.inspect(p)}[what]
            self.do(what, fn)
        self.ctx.count("refused_files")


class Watched(Longer):
    def do(self, label, fn, *args, **kw):
        def remember(*args, **kw):
            try:
                return fn(*args, **kw)
            except Exception as e:           # noqa: BLE001
                # (programs can keep errors)
                self.error = e
                raise
        before = state()
        v = super().do(label, remember, *args, **kw)
        after = state()
        self.error = None
        for k in before:
            self.ctx.check(before[k] == after[k], f"{label} changed the "
                           f"{k}: {O.short(before[k])} is now "
                           f"{O.short(after[k])}", steps=self.steps)
        self.ctx.count("calls")
        self.ctx.count("refused_calls", int(
            len(self.rows[-1]) == 3 and isinstance(self.rows[-1][2], str)
            and self.rows[-1][1] != "value"))
        return v


def case(ctx):
    rng = ctx.rng
    os.chdir(ctx.dir)
    tmp = ctx.path("tmp")
    os.mkdir(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter(rng.choice(["ignore", "always"]))
            if rng.random() < .5:
                warnings.filterwarnings("ignore", "something", FutureWarning)
            warnings.showwarning = lambda *a, **k: None
            quiet = gen.quiet
            gen.quiet = lambda fn, *a, **k: fn(*a, **k)
            try:
                watch(ctx)
            finally:
                gen.quiet = quiet
    finally:
        tempfile.tempdir = old


def watch(ctx):
    conv = gen.Gen(ctx).convention()
    p = Watched(ctx, conv, ctx.rng.getrandbits(40), ctx.path("p"))
    p.run("x")
    shutil.rmtree(ctx.path("p"))
    p.__class__ = Longer
    used, size = [], []
    trace = ctx.rng.random() < .25
    if trace:
        tracemalloc.start()
    try:
        executions(ctx, p, used, size)
    finally:
        tracemalloc.stop()
    ctx.count("executions", RUNS)
    ctx.key(conv.stem, p.steps)
    for what, x, most in (("blocks", used, 200), ("bytes", size, 20000)):
        grow = [b - a for a, b in zip(x, x[1:])][-4:]
        ctx.check(not grow or min(grow) < most, "the memory that is in use "
                  f"grows by {grow} {what} from execution to execution",
                  steps=p.steps)
    ctx.count("traced_executions", RUNS * trace)


def executions(ctx, p, used, size):
    for i in range(RUNS):
        p.run("x")
        refs = {}
        for o in p.objects:
            refs["object"] = refs.get("object", []) + [weakref.ref(o)]
            for v in vars(o).values():
                if isinstance(v, np.ndarray) and not any(
                        v is x for m in p.models for x in m.entries.values()):
                    refs["array"] = refs.get("array", []) + [weakref.ref(v)]
        v = o = None
        p.objects, p.rows = [], []
        sys.stdout.seek(0)
        sys.stdout.truncate()
        shutil.rmtree(ctx.path("p"))
        gc.collect()
        for k, r in refs.items():
            n = sum(x() is not None for x in r)
            ctx.check(not n, f"{n} of {len(r)} {k}s are still in use after "
                      "all references were removed", steps=p.steps)
            ctx.count(k + "s_released", len(r))
        del refs
        gc.collect()
        used.append(sys.getallocatedblocks())
        if tracemalloc.is_tracing():
            size.append(tracemalloc.get_traced_memory()[0])
