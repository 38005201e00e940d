"""A fixed sequence of calls whose results do not depend on the environment.

Executed by C23 in processes of their own:

    python scenario.py <job.pickle> <result.json>

The job names the environment.  The result is a list of
``[label, kind, value]`` with kind ``data``, ``text`` or ``warning``.
"""
import contextlib
import hashlib
import io
import json
import os
import pickle
import sys
import threading
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Recorder:
    def __init__(self, scratch):
        self.rows = []
        self.scratch = scratch

    def clean(self, text):
        return str(text).replace(self.scratch, "<dir>")

    def add(self, label, kind, value):
        self.rows.append([label, kind, value])

    def call(self, label, fn, *args, **kwargs):
        buf = io.StringIO()
        exc = value = None
        with warnings.catch_warnings(record=True) as w, \
                contextlib.redirect_stdout(buf):
            try:
                value = fn(*args, **kwargs)
            except Exception as e:           # noqa: BLE001
                exc = e
        self.add(label + ": outcome", "data",
                 "returned" if exc is None else type(exc).__name__)
        if exc is not None:
            self.add(label + ": message", "text", self.clean(exc))
        self.add(label + ": printed", "text", self.clean(buf.getvalue()))
        for x in w:
            if issubclass(x.category, UserWarning):
                self.add(label + ": warning", "warning",
                         self.clean(x.message))
        return value


def plain(a):
    """Numbers as text, whatever the print options are."""
    import numpy as np
    with np.printoptions(legacy=False):
        return repr([str(x) for x in a.reshape(-1)])


def digest(v):
    import numpy as np
    if isinstance(v, np.ma.MaskedArray):
        return ["masked", digest(np.ma.getdata(v.filled())),
                digest(np.ma.getmaskarray(v))]
    if isinstance(v, (np.ndarray, np.generic)):
        a = np.asarray(v)
        if a.dtype.kind not in "biufcSUmM" or a.dtype.itemsize > 8 and \
                a.dtype.kind in "fc":
            # (bytes that are no values)
            return [str(a.dtype), list(a.shape), repr(a.tolist())
                    if a.dtype.kind in "OV" else plain(a)]
        return [str(a.dtype), list(a.shape), hashlib.sha256(
            np.ascontiguousarray(a).tobytes()).hexdigest()]
    if isinstance(v, (list, tuple)):
        return [digest(x) for x in v]
    return f"{type(v).__name__} {v!r}"


def content(o):
    return {k: digest(v) for k, v in sorted(vars(o).items())
            if not k.startswith("_")}


DYNAMIC = ("GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
           "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
           "GLOBAL_ApplicationVersion")


def one(rec, i, m, ops, sf, gen, work, rel):
    """All calls for one model; ``rel`` turns names into paths."""
    lab = f"{i} {m.conv.stem} "
    try:
        o = gen.realise(sf, m)
    except Exception as e:                   # noqa: BLE001
        rec.add(lab + "create", "data", rec.clean(repr(e)))
        return
    rec.add(lab + "content", "data", content(o))
    for how in ("raise", "return", "print", "ignore"):
        for mode in ("write", "read"):
            c = rec.call(lab + "copy", o.copy)
            v = rec.call(f"{lab}verify({how}, {mode})", c.verify,
                         issue_handling=how, mode=mode)
            rec.add(f"{lab}verify({how}, {mode})", "text", str(v))
            rec.add(f"{lab}verify({how}, {mode}) found", "data",
                    v is not None)
    c = o.copy()
    for d in "MRENCISTQ":
        rec.add(lab + "dimension " + d, "data",
                digest(rec.call(lab + "get_dimension " + d,
                                c.get_dimension, d)))
    rec.call(lab + "list_dimensions", lambda: c.list_dimensions)
    txt = os.path.join(work, f"{i}.txt")
    rec.call(lab + "inspect", c.inspect, rel(txt))
    if os.path.exists(txt):
        with open(txt, "rb") as f:
            rec.add(lab + "inspect file", "text",
                    rec.clean(f.read().decode("utf-8", "replace")))
    rec.call(lab + "info", c.info)
    rec.call(lab + "info data", c.info, "data")
    for name, args in ops:
        rec.call(f"{lab}{name}{args}", getattr(c, name), *args)
        rec.add(f"{lab}{name}{args} content", "data", content(c))
    for n in sorted(c.__dict__)[::7]:
        if not n.startswith("_"):
            rec.call(lab + "delete " + n, c.delete, n)
            rec.call(lab + "assign " + n, setattr, c, n, [[1, 2], [3, 4]])
    rec.add(lab + "changed content", "data", content(c))
    rec.call(lab + "add_missing", c.add_missing)
    rec.add(lab + "add_missing content", "data", {
        k: v for k, v in content(c).items() if k not in DYNAMIC})
    for x, y in ((o, c), (c, o), (o, o.copy())):
        for opt in (None, "GLOBAL", "DATE", "ATTR"):
            rec.add(f"{lab}equals {opt}", "data", digest(rec.call(
                f"{lab}equals {opt}", sf.equals, x, y, True, opt)))
    path = os.path.join(work, f"{i}.sofa")
    rec.call(lab + "write_sofa", sf.write_sofa, rel(path), o, 4)
    rec.add(lab + "file exists", "data", os.path.exists(path))
    if os.path.exists(path):
        for kw in ({}, {"verify": False}, {"verify": True},
                   {"verbose": False}):
            r = rec.call(f"{lab}read_sofa {kw}", sf.read_sofa, rel(path),
                         **kw)
            rec.add(f"{lab}read_sofa {kw} content", "data",
                    content(r) if r is not None else None)
        r = rec.call(lab + "read_sofa_as_netcdf", sf.read_sofa_as_netcdf,
                     rel(path))
        rec.add(lab + "read_sofa_as_netcdf content", "data",
                content(r) if r is not None else None)

        def stream():
            with sf.SofaStream(rel(path)) as f:
                f.list_dimensions
                f.inspect()
                return {n: digest(getattr(f, n)[:]) if not isinstance(
                    getattr(f, n), str) else digest(getattr(f, n))
                    for n in sorted(m.entries)}
        rec.add(lab + "stream content", "data",
                rec.call(lab + "SofaStream", stream))
    u = o.copy()
    rec.add(lab + "targets", "data", digest(
        rec.call(lab + "upgrade_convention()", u.upgrade_convention)))
    for t in ops_targets(m, gen):
        rec.call(lab + "upgrade " + t, u.upgrade_convention, t)
        rec.add(lab + "upgraded content", "data", {
            k: v for k, v in content(u).items() if k not in DYNAMIC})


def ops_targets(m, gen):
    return getattr(m, "targets", [])


def whole(rec, sf, job):
    rec.add("version", "data", sf.version())
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        sf.list_conventions()
    rec.add("list_conventions", "data", sorted(buf.getvalue().split("\n")))
    for name, version in job["names"]:
        for kw in ({}, {"mandatory": True}, {"version": version},
                   {"version": "99.0"}):
            o = rec.call(f"Sofa {name} {kw}", sf.Sofa, name, **kw)
            rec.add(f"Sofa {name} {kw} content", "data", {
                k: v for k, v in content(o).items() if k not in DYNAMIC}
                if o is not None else None)


def patch_listing(order, seed):
    """Directories are listed in another order."""
    import random
    scan, lst = os.scandir, os.listdir

    def arranged(x):
        x = sorted(x, key=lambda e: e if isinstance(e, (str, bytes))
                   else e.name)
        if order == "reverse":
            x.reverse()
        elif order == "shuffle":
            random.Random(seed).shuffle(x)
        return x

    class Scan:
        def __init__(self, path="."):
            with scan(path) as it:
                self.it = iter(arranged(it))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *args):
            pass

        def close(self):
            pass
    os.scandir = Scan
    os.listdir = lambda path=".": arranged(lst(path))
    import glob
    import pathlib
    for mod in (glob, pathlib):
        for n in ("_scandir", "scandir"):
            if hasattr(mod, n):
                setattr(mod, n, Scan)


def main(job, out):
    with open(job, "rb") as f:
        job = pickle.load(f)
    env = job["env"]
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in ("", HERE + "/vlib")]
    if env.get("listing"):
        patch_listing(env["listing"], job["seed"])
    if env.get("import") == "relative":
        os.chdir(job["base"])
        sys.path.insert(0, "")
    else:
        sys.path.insert(0, job["base"])
    if env.get("gc"):
        import gc
        gc.set_threshold(1)
    if env.get("import") == "submodule":
        import sofar.utils                   # noqa: F401
        import sofar.io                      # noqa: F401
        import sofar.sofastream              # noqa: F401
    elif env.get("import") == "star":
        ns = {}
        exec("from sofar import *", ns)      # noqa: S102
    import sofar as sf
    import numpy as np
    sys.path.insert(0, HERE)
    with open(job["models"], "rb") as f:
        models = pickle.load(f)
    from vlib import gen
    if env.get("print"):
        np.set_printoptions(precision=2, threshold=3, suppress=True,
                            edgeitems=1, linewidth=30,
                            legacy=env["print"] == "legacy" and "1.13")
    if env.get("umask"):
        os.umask(0o077)
    if env.get("cwd"):
        os.chdir(env["cwd"])
    work = job["work"]
    rec = Recorder(work)
    rec.add("sofar", "data", os.path.abspath(sf.__file__))

    def rel(path):
        return os.path.relpath(path) if env.get("relative") else path

    def run():
        try:
            whole(rec, sf, job)
            for i, (m, ops) in enumerate(models):
                one(rec, i, m, ops, sf, gen, work, rel)
        except BaseException as e:           # noqa: BLE001
            import traceback
            rec.add("scenario", "error", traceback.format_exc() + repr(e))
    if env.get("thread"):
        t = threading.Thread(target=run)
        t.start()
        t.join()
    else:
        run()
    rows = [r if r[0] != "sofar" else r for r in rec.rows]
    with open(out, "w", encoding="utf-8") as f:
        json.dump(rows, f)


if __name__ == "__main__":
    main(*sys.argv[1:3])
