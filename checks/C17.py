"""C17 - files are never damaged by refused writes or by reading."""
import contextlib
import os
import pathlib
import shutil

import netCDF4

from vlib import gen, mutate, oracle as O
from vlib.harness import call

PROP = "C17"
RULE = ("random sequences of accepted and refused writes, reads, streams, "
        "inspections and failing reads in a folder with valid, damaged and "
        "other files; names with dots, blanks and other endings, str and "
        "Path, absolute and relative; names and bytes of all files and the "
        "open descriptors of the process are compared before and after each "
        "call; distinct by call, outcome, reason and file name")
QUICK = (32, 18)
THOROUGH = (400, 190)
REQUIRED = ["written", "overwritten", "refused_object", "refused_argument",
            "reads", "failed_reads", "streams", "failed_streams",
            "inspections", "dotted_names", "spoiled_files",
            "refused_spoiled_reads", "refused_on_existing",
            "refused_on_new"]
NAMES = ["a", "a.sofa", "b.c", "b.c.sofa", "v1.0", "v1.0.sofa", "x y.sofa",
         "ü.sofa", "file.nc", "data.h5", "a.sofa.bak", "sofa", "my.sofa.txt",
         "a-b_c.sofa", "sub/a.sofa", "sub/z", "sub.dir/q", "..x", "1.5",
         "IR_48.0kHz", "dot.", "asofa", "tmp~", "a.sofa.sofa", "a.sofax", "CAPITALS.SOFA",
         "Mixed.Sofa", "x.sofa.SOFA",
         # (with a meaning in other places, but not in a file name)
         "~/h", "~tilde.sofa", "a$VERIF_NAME", "${VERIF_NAME}.sofa", "%41",
         "p%20q.sofa", "n#1", "[1].sofa", "*", "a?.sofa", "a&b;c", "'q'",
         "file:x", "-v", " lead.sofa", "trail ", "(1)",
         "e\u0301.sofa", "\u00e9.sofa", "sub/ b.sofa", "\tc",
         "http.sofa", "x,y", "{0}", "@", "a=b"]


def drop(f, name):
    v = next((x for x in (name, "Data.IR", "Data.Real", "SourcePosition")
              if x in f.variables), None)
    if v:
        # (the netCDF library can not rename all variables)
        with contextlib.suppress(RuntimeError):
            f.renameVariable(v, "Something")


def odd_types(f):
    f.createVariable("OddInt", "u2", ("M", "C"))[:] = 3
    v = f.createVariable("OddText", str, ("M",))
    for i in range(len(f.dimensions["M"])):
        v[i] = "abc"


SPOIL = {
    "unknown convention": lambda f: f.setncattr("SOFAConventions",
                                                    "NoSuchThing"),
    "no convention": lambda f: f.delncattr("SOFAConventions"),
    "no version": lambda f: f.delncattr("SOFAConventionsVersion"),
    "unknown version": lambda f: f.setncattr("SOFAConventionsVersion", "9.7"),
    "version that is none": lambda f: f.setncattr("SOFAConventionsVersion",
                                                  "one"),
    "numeric version": lambda f: f.setncattr("SOFAConventionsVersion", 1.0),
    "numeric title": lambda f: f.setncattr("Title", 3),
    "renamed data": lambda f: drop(f, "Data.SOS"),
    "renamed position": lambda f: drop(f, "ReceiverPosition"),
    "odd types": odd_types,
    "other data type": lambda f: f.setncattr("DataType", "FOO"),
    "wrong units": lambda f: f["SourcePosition"].setncattr("Units", "mm"),
    "numeric units": lambda f: f["SourcePosition"].setncattr("Units", 4),
    "odd characters": lambda f: setattr(
        f.createVariable("OddChars", "S1", ("M", "S")), "_Encoding", "foo"),
    "bytes": lambda f: f.createVariable("OddBytes", "S1", ("M", "C"))
    .__setitem__(slice(None), b"\xff")}
NEVER_READ = ("unknown convention", "no convention", "no version",
              "unknown version", "version that is none")


def target(name):
    return name if name.lower().endswith(".sofa") else name + ".sofa"


def files(folder):
    out = {}
    for d, dirs, names in os.walk(folder):
        for f in names:
            p = os.path.join(d, f)
            with open(p, "rb") as fid:
                out[os.path.relpath(p, folder)] = fid.read()
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), folder) + "/"] = b""
    return out


def descriptors(folder):
    out = []
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            p = os.readlink("/proc/self/fd/" + f)
            if p.startswith(folder):
                out.append(p)
    return sorted(out)


class Folder:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.dir = ctx.path("files")
        # what names like "~" and "$NAME" stand for elsewhere
        os.environ["HOME"] = ctx.path("home")
        os.makedirs(os.path.join(ctx.path("home"), "~"), exist_ok=True)
        os.environ["VERIF_NAME"] = "other"
        for d in ("sub", "sub.dir", "d.sofa", "~"):
            os.makedirs(os.path.join(self.dir, d))
        os.chdir(self.dir)
        self.g = gen.Gen(ctx, masked=False)
        self.models = {}          # file -> model of the content
        for n, b in (("notes.txt", b"some notes"), ("bad.sofa", b"no netCDF"),
                     ("empty.sofa", b""), ("v1", b"x"), ("b", b"y" * 9),
                     ("a.txt", b"z")):
            with open(os.path.join(self.dir, n), "wb") as f:
                f.write(b)
        self.trace = []

    def name(self, n):
        """One of the ways to pass a file name."""
        k = self.rng.randrange(5)
        if k == 0:
            n = os.path.join(self.dir, n)
        elif k == 1:
            n = pathlib.Path(self.dir) / n
        elif k == 2:
            n = pathlib.Path(n)
        elif k == 3:
            n = os.path.join(self.dir, ".", n)
        return n

    def watch(self, what, fn, *args, changes=(), **kw):
        """Call and compare all files; ``changes`` may change."""
        ctx = self.ctx
        before = files(self.dir)
        r = call(fn, *args, **kw)
        self.trace.append(f"{what} {r!r}"[:150])
        after = files(self.dir)
        for f in sorted(set(before) | set(after)):
            if f in changes:
                continue
            ctx.check(f in after, f"{what} deleted {f}", trace=self.trace)
            ctx.check(f in before, f"{what} created {f}", trace=self.trace)
            ctx.check(before[f] == after[f], f"{what} changed {f}",
                      trace=self.trace, result=repr(r))
        left = descriptors(self.dir)
        ctx.check(not left, f"{what} leaves {left} open", trace=self.trace)
        return r, before, after

    # --------------------------------------------------------------- writes
    def write(self):
        ctx, rng = self.ctx, self.rng
        m = self.g.random()
        if m is None or gen.orphans(m):
            return
        o = gen.realise(ctx.sf, m, rng)
        n = rng.choice(NAMES + list(self.models))
        t = target(n)
        kw = rng.choice([{}, {}, {"compression": rng.randint(0, 9)}])
        r, before, after = self.watch(
            f"writing {n}", ctx.sf.write_sofa, self.name(n), o, changes=[t],
            **kw)
        ctx.check(r.exc is None, f"writing {n} {r!r}", model=gen.describe(m))
        ctx.check(t in after, f"writing {n} did not create {t}")
        ctx.count("overwritten" if t in before else "written")
        ctx.count("dotted_names", int("." in n.replace(".sofa", "")))
        self.models[t] = m
        ctx.key("write", n, t in before)
        # found under the same name
        r, *_ = self.watch(f"reading {n}", ctx.sf.read_sofa, self.name(n),
                           verify=False)
        ctx.check(r.exc is None, f"{n} was written but read_sofa {r!r}")
        d = O.diff_semantic(m, O.content(r.value))
        ctx.check(not d, f"reading {n}: {d[:3]}")

    def refused_write(self):
        ctx, rng = self.ctx, self.rng
        m = self.g.random()
        if m is None:
            return
        kw, why = {}, None
        if rng.random() < .7:
            bad = m.copy()
            # (what is missing can not be changed again: removed last)
            todo = [rng.randrange(5) for _ in range(rng.randint(1, 2))]
            for k in sorted(set(todo)):
                [lambda: mutate.rule(rng, ctx.cat, bad, "write", self.g),
                 lambda: mutate.units_case(rng, bad),
                 lambda: mutate.shape(rng, ctx.np, bad),
                 lambda: mutate.type_(rng, ctx.np, bad),
                 lambda: mutate.missing(rng, bad)][k]()
            err = O.issues(bad, ctx.cat, "write")[0]
            if not err:
                return
            m, why = bad, sorted({e[0] for e in err})
            ctx.count("refused_object")
            for f in why:
                ctx.count("refused_" + f)
        try:
            o = gen.realise(ctx.sf, m, rng)
        except Exception:                    # noqa: BLE001
            ctx.count("left_to_other_checks")
            return
        n = rng.choice(NAMES[:8] + list(self.models) * 3 +
                       ["bad.sofa", "empty"])
        if why is None or rng.random() < .15:
            comp = rng.choice([-1, 10, 11, 99, "4", "a", 2.5, -3, [4], 1e9])
            k = rng.randrange(4)
            if k < 2:
                kw, why = {"compression": comp}, f"compression {comp}"
            elif why is None and k == 2:
                o, why = rng.choice([None, 1, "a", {}, ctx.sf]), "no object"
            else:
                n, why = rng.choice(["no/x", "no/x.sofa", "d", "d.sofa"]), \
                    "folder"
            ctx.count("refused_argument")
        what = f"writing {n} in spite of {why}"
        r, before, after = self.watch(what, ctx.sf.write_sofa, self.name(n),
                                      o, **kw)
        ctx.check(r.exc is not None, f"{what} was not refused",
                  model=gen.describe(m))
        ctx.count("refused_on_existing" if target(n) in before
                  else "refused_on_new")
        ctx.key("refused", n, str(why), target(n) in before)

    def refused_after_change(self):
        """An object that was written before breaks a rule now."""
        ctx, rng = self.ctx, self.rng
        if not self.models:
            return self.write()
        n = rng.choice(list(self.models))
        r = call(ctx.sf.read_sofa, os.path.join(self.dir, n), verify=False)
        if r.exc is not None:
            return
        o, m = r.value, self.models[n].copy()
        rng.choice([lambda: mutate.shape(rng, ctx.np, m),
                    lambda: mutate.missing(rng, m)])()
        if not O.issues(m, ctx.cat, "write")[0]:
            return
        o.protected = False
        for x, v in O.content(o).items():
            if x not in m.entries:
                delattr(o, x)
            elif m.entries[x] is not self.models[n].entries[x]:
                t, d, _ = m.meta(x)
                if not O.same_value(m.entries[x], v, t, d):
                    gen.put(o, x, O.cp(m.entries[x]))
        o.protected = True
        what = f"writing {n} after breaking it"
        r, *_ = self.watch(what, ctx.sf.write_sofa, self.name(n), o)
        ctx.check(r.exc is not None, f"{what} was not refused",
                  model=gen.describe(m))
        ctx.count("refused_on_existing")
        ctx.key("changed", n, m.conv.stem)

    # ---------------------------------------------------------------- reads
    def read(self):
        ctx, rng, sf = self.ctx, self.rng, self.ctx.sf
        fn = rng.choice([sf.read_sofa, sf.read_sofa, sf.read_sofa_as_netcdf])
        kw = {}
        if fn is sf.read_sofa:
            kw = rng.choice([{}, {"verify": False}, {"verify": True},
                             {"verbose": False}])
        bad = ["bad.sofa", "bad", "empty.sofa", "no.sofa", "notes.txt",
               "no/x.sofa", "d.sofa", "notes", "", "v1"]
        bad = [n for n in bad if target(n) not in self.models]
        if rng.random() < .5 and self.models:
            n = rng.choice(list(self.models))
            r, *_ = self.watch(f"{fn.__name__} {n}", fn, self.name(n), **kw)
            ctx.check(r.exc is None, f"{fn.__name__}({n}) {r!r}")
            ctx.count("reads")
            o = r.value
            # what is done with the object does not concern the file
            k = rng.randrange(4)
            if k == 0:
                self.watch("verify", o.verify, issue_handling="ignore")
            elif k == 1:
                self.watch("inspect", o.inspect)
            elif k == 2:
                self.watch("list_dimensions", getattr, o, "list_dimensions")
            elif k == 3:
                o.GLOBAL_Title = "changed"
                self.watch("changing the object", repr, o)
        else:
            n = rng.choice(bad)
            r, *_ = self.watch(f"{fn.__name__} {n}", fn, self.name(n), **kw)
            ctx.check(r.exc is not None, f"{fn.__name__}({n}) {r!r}")
            ctx.count("failed_reads")
        ctx.key("read", fn.__name__, n, sorted(kw))

    def spoiled(self):
        """Reading files that are netCDF files but no good SOFA files."""
        ctx, rng, sf = self.ctx, self.rng, self.ctx.sf
        if not self.models:
            return
        src = rng.choice(list(self.models))
        t = "spoiled.sofa"
        shutil.copy(os.path.join(self.dir, src), os.path.join(self.dir, t))
        kind = rng.choice(list(SPOIL))
        with netCDF4.Dataset(os.path.join(self.dir, t), "a") as f:
            SPOIL[kind](f)
        refused = 0
        for _ in range(rng.randint(1, 3)):
            fn = rng.choice([sf.read_sofa, sf.read_sofa,
                             sf.read_sofa_as_netcdf, self.all_of_stream])
            kw = {} if fn is not sf.read_sofa else rng.choice(
                [{}, {"verify": False}, {"verify": True, "verbose": False}])
            r, *_ = self.watch(f"{fn.__name__} of {src} with {kind} {kw}", fn,
                               self.name(t), **kw)
            if fn is sf.read_sofa:
                refused += r.exc is not None
                ctx.check(r.exc is not None or kind not in NEVER_READ,
                          f"read_sofa of {src} with {kind} {r!r}")
            ctx.key("spoiled", kind, fn.__name__, sorted(kw), r.exc is None)
        ctx.count("spoiled_files")
        ctx.count("refused_spoiled_reads", refused)
        os.remove(os.path.join(self.dir, t))

    def all_of_stream(self, path):
        with self.ctx.sf.SofaStream(path) as s:
            s.inspect()
            s.list_dimensions
            s.Data_NotInTheFile

    def stream(self):
        ctx, rng, sf = self.ctx, self.rng, self.ctx.sf
        bad = [n for n in ["bad.sofa", "no.sofa", "empty.sofa", "notes.txt",
                           "d.sofa"] if n not in self.models]
        if rng.random() < .25 or not self.models:
            n = rng.choice(bad)

            def use():
                with sf.SofaStream(self.name(n)) as s:
                    return s.GLOBAL_Title
            r, *_ = self.watch(f"streaming {n}", use)
            ctx.check(r.exc is not None, f"streaming {n} {r!r}")
            ctx.count("failed_streams")
            ctx.key("stream", n)
            return
        n = rng.choice(list(self.models))
        m = self.models[n]
        todo = [rng.choice(["attr", "data", "inspect", "dims", "none",
                            "error", "file", "write"])
                for _ in range(rng.randint(1, 4))]
        made = []

        def use():
            with sf.SofaStream(self.name(n)) as s:
                for t in todo:
                    if t == "attr":
                        s.GLOBAL_SOFAConventions
                    elif t == "data":
                        getattr(s, rng.choice(gen_variables(m)))[:]
                    elif t == "inspect":
                        s.inspect()
                    elif t == "file":
                        f = rng.choice(["out.txt", "out 2.md"])
                        made.append(f)
                        s.inspect(os.path.join(self.dir, f))
                    elif t == "dims":
                        s.list_dimensions
                        s.get_dimension("M")
                    elif t == "none":
                        s.GLOBAL_NotInTheFile
                    elif t == "write":
                        # (the file is open for reading)
                        v = s.SourcePosition
                        v[:] = 0
                    else:
                        raise KeyError("error of the user")
        r, before, after = self.watch(
            f"streaming {n} ({todo})", use, changes=["out.txt", "out 2.md"])
        fails = [t for t in todo if t in ("none", "error", "write")]
        ctx.check((r.exc is not None) == bool(fails),
                  f"streaming {n} ({todo}) {r!r}")
        self.texts(before, after, made)
        ctx.count("streams")
        ctx.key("stream", n, todo)

    def texts(self, before, after, made):
        for f in ("out.txt", "out 2.md"):
            if f in made:
                self.ctx.check(after.get(f), f"{f} was not written")
            else:
                self.ctx.check(before.get(f) == after.get(f),
                               f"{f} was changed")

    def inspect(self):
        ctx, rng = self.ctx, self.rng
        c = rng.choice(ctx.cat.conventions)
        o = gen.quiet(ctx.sf.Sofa, c.name, version=c.version, verify=False)
        f = rng.choice([None, "out.txt", "out 2.md"])
        kw = {} if f is None else {"file": os.path.join(self.dir, f)}
        r, before, after = self.watch("inspect", o.inspect,
                                      changes=["out.txt", "out 2.md"], **kw)
        ctx.check(r.exc is None, f"inspect {r!r}")
        self.texts(before, after, [f])
        if f:
            ctx.check(after[f].decode().strip() in r.out,
                      "file and output of inspect differ")
        ctx.count("inspections")

    def others(self):
        """Calls that have nothing to do with files."""
        ctx, rng, sf = self.ctx, self.rng, self.ctx.sf
        c = rng.choice(ctx.cat.conventions)
        r, *_ = self.watch("Sofa", sf.Sofa, c.name, version=c.version,
                           verify=False)
        ctx.check(r.exc is None, f"Sofa {r!r}")
        self.watch("list_conventions", sf.list_conventions)
        self.watch("equals", sf.equals, r.value, r.value)
        self.watch("version", sf.version)


def gen_variables(m):
    return [n for n in m.entries if m.meta(n)[1] is not None]


def case(ctx):
    f = Folder(ctx)
    ops = {"write": 4, "refused_write": 6, "refused_after_change": 2,
           "read": 3, "stream": 3, "inspect": 1, "others": .4,
           "spoiled": 2.5}
    f.write()
    for _ in range(ctx.rng.randint(3, 9)):
        op = ctx.rng.choices(list(ops), list(ops.values()))[0]
        getattr(f, op)()
    ctx.sample = f.trace[:8]


def every_name(ctx):
    """All file names, also over files with similar names."""
    f = Folder(ctx)
    o = gen.quiet(ctx.sf.Sofa, "GeneralTF")
    for i, n in enumerate(NAMES):
        t = target(n)
        o.GLOBAL_Title = n
        for _ in range(3):
            r, *_ = f.watch(f"writing {n}", ctx.sf.write_sofa, f.name(n), o,
                            changes=[t])
            ctx.check(r.exc is None, f"writing {n} {r!r}")
        ctx.check(os.path.isfile(t), f"{t} was not written")
    for n in NAMES:
        for fn in (ctx.sf.read_sofa, ctx.sf.read_sofa_as_netcdf):
            r, *_ = f.watch(f"reading {n}", fn, f.name(n))
            want = max((x for x in NAMES if target(x) == target(n)),
                       key=NAMES.index)
            ctx.check(r.exc is None and r.value.GLOBAL_Title == want,
                      f"reading {n}: {r!r}")
    # reading does not fall back to files with other endings
    os.remove("b.c.sofa")
    r, *_ = f.watch("reading b.c", ctx.sf.read_sofa, "b.c")
    ctx.check(r.exc is not None, f"reading b.c {r!r}")


def shrink(ctx):
    """Nothing of a larger file is left after writing over it."""
    import numpy as np
    f = Folder(ctx)
    o = gen.quiet(ctx.sf.Sofa, "GeneralTF")
    o.Data_Real = o.Data_Imag = np.random.default_rng(1).normal(
        size=(300, 1, 40))
    o.N = np.arange(40)
    o.add_variable("Extra", np.arange(300), "double", "M")
    f.watch("write", ctx.sf.write_sofa, "a", o, 0, changes=["a.sofa"])
    big = os.path.getsize("a.sofa")
    p = gen.quiet(ctx.sf.Sofa, "GeneralTF")
    r, *_ = f.watch("write", ctx.sf.write_sofa, "a", p, 0,
                    changes=["a.sofa"])
    ctx.check(r.exc is None and os.path.getsize("a.sofa") < big, f"{r!r}")
    r = call(ctx.sf.read_sofa, "a")
    ctx.check(r.exc is None and not hasattr(r.value, "Extra") and
              np.size(r.value.Data_Real) == 1, f"{r!r}")


fixed = [every_name, shrink]
