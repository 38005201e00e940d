"""C29 - failing storage never goes unnoticed."""
import contextlib
import json
import io
import os
import resource
import shutil
import warnings

from vlib import gen, oracle as O

PROP = "C29"
LEVEL = "fault_enumeration"
RULE = ("random valid objects are written by processes of their own whose "
        "storage ends at a byte of the file, over new and existing files; the "
        "result of the call, the written object, what other processes read, "
        "and the process afterwards are compared to the model; text files of "
        "inspect and files that were cut off likewise; distinct by "
        "convention, fault and position")
QUICK = (32, 7)
THOROUGH = (320, 60)
REQUIRED = ["failed", "complete", "overwritten", "other_files", "cut",
            "inspect_failed", "inspect_complete"]
ASSUMPTIONS = ["storage fails with an error of the system call that writes "
               "(limit of the file size)"]


def apart(fn):
    """Result of fn (json) in another process, or how it ended."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = fn()
            except BaseException as e:           # noqa: BLE001
                out = {"harness": repr(e)}
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        out += x
    os.close(r)
    end = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if not out:
        return end
    out = json.loads(out)
    if "harness" in out:
        raise RuntimeError(out["harness"])
    return out


def limit(size):
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))


def quiet(fn, *args, **kwargs):
    with warnings.catch_warnings(), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            fn(*args, **kwargs)
        except Exception as e:                   # noqa: BLE001
            return repr(e)[:300]


def write(ctx, o, path, comp, size):
    """What the writing process observes."""
    sf = ctx.sf

    def run():
        before = O.freeze(O.content(o))
        here = os.getcwd()
        limit(size)
        error = quiet(sf.write_sofa, path, o, comp)
        limit(resource.RLIM_INFINITY)
        out = {"error": error, "protected": bool(o.protected),
               "folder": os.getcwd() == here,
               "changed": O.diff_content(before, O.content(o))}
        # sofar still works
        other = path + ".other.sofa"

        def again():
            sf.write_sofa(other, o, comp)
            got = sf.read_sofa(other, verbose=False)
            if not sf.equals(o, got, False):
                raise ValueError("other content")
        out["other"] = quiet(again)
        if os.path.exists(other):
            os.remove(other)
        return out
    return apart(run)


def left(ctx, path, m):
    """What another process reads."""
    sf = ctx.sf

    def run():
        got = []
        e = quiet(lambda: got.append(sf.read_sofa(path, verbose=False)))
        if e is not None:
            return {"error": e}
        d = O.diff_semantic(m, O.content(got[0]))
        return {"other": d[:4]} if d else {"complete": True}
    r = apart(run)
    return {"error": f"ended with {r}"} if isinstance(r, int) else r


def case(ctx):
    rng = ctx.rng
    g = gen.Gen(ctx)
    m = g.random()
    old = g.random() if rng.random() < .4 else None
    if m is None:
        ctx.count("no_object")
        return
    o = gen.realise(ctx.sf, m, rng)
    faults(ctx, m, o, old and gen.realise(ctx.sf, old, rng), old,
           5 if ctx.tier == "quick" else 30)
    if rng.random() < .5:
        texts(ctx, m, o, 4)
    ctx.sample = gen.describe(m)


def faults(ctx, m, o, oldo, old, number):
    rng = ctx.rng
    os.chdir(ctx.dir)
    comp = rng.choice([0, 1, 4, 9])
    ref, before = ctx.path("ref.sofa"), ctx.path("before.sofa")
    ctx.must(ctx.sf.write_sofa, ref, o, comp)
    if oldo is not None:
        ctx.must(ctx.sf.write_sofa, before, oldo)
    size = os.path.getsize(ref)
    path = ctx.path(rng.choice(["a.sofa", "b c.sofa", "é.sofa", "sub/a.sofa",
                                "sub/d.e/ä.sofa"]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if rng.random() < .4:
        path = os.path.relpath(path)
    for i in range(number):
        at = rng.choice([rng.randrange(size), rng.randrange(size),
                         rng.randrange(min(2000, size)),
                         size - rng.randint(1, 64), size, 0, 2 * size + 9999])
        one(ctx, m, o, path, comp, size, at, before)
    cuts(ctx, m, ref, size, path, number)


def one(ctx, m, o, path, comp, size, at, before):
    if os.path.exists(path):
        os.remove(path)
    if os.path.exists(before):
        shutil.copy(before, path)
        ctx.count("overwritten")
    r = write(ctx, o, path, comp, at)
    what = f"storage for {at} bytes of {size}"
    ctx.key(m.conv.stem, at)
    detail = {"model": gen.describe(m), "observed": r}
    ctx.check(isinstance(r, dict), f"writing ended the process ({what})",
              **detail)
    ctx.check(not r["changed"], f"writing changed the object ({what}): "
              f"{r['changed']}", **detail)
    ctx.check(r["protected"], f"the object is not protected ({what})",
              **detail)
    ctx.check(r["folder"], f"another current directory ({what})", **detail)
    ctx.check(r["other"] is None, "another file can not be written and "
              f"read after {what}: {r['other']}", **detail)
    ctx.count("other_files")
    if r["error"] is None:
        x = left(ctx, path, m)
        ctx.check("complete" in x, f"write_sofa returned ({what}), but the "
                  f"content is {x}", **detail)
        ctx.count("complete")
    else:
        ctx.check(at < 2 * size, f"write_sofa failed ({what})", **detail)
        ctx.count("failed")


def cuts(ctx, m, ref, size, path, number):
    """Files of which the end is missing."""
    with open(ref, "rb") as f:
        data = f.read()
    for i in range(number):
        at = ctx.rng.choice([ctx.rng.randrange(size), size - 1, 0])
        with open(path, "wb") as f:
            f.write(data[:at])
        def readers():
            def stream():
                with ctx.sf.SofaStream(path) as f:
                    f.list_dimensions
            return [quiet(ctx.sf.read_sofa, path, verify=False),
                    quiet(ctx.sf.read_sofa_as_netcdf, path), quiet(stream)]
        x = apart(readers)
        if isinstance(x, list):
            x = [i for i, e in enumerate(x) if e is None]
            ctx.check(not x, f"the first {at} of {size} bytes of a file are "
                      "accepted by " + ", ".join(
                          ("read_sofa", "read_sofa_as_netcdf",
                           "SofaStream")[i] for i in x))
        x = left(ctx, path, m)
        ctx.check("error" in x, f"the first {at} of {size} bytes of a file "
                  f"are read as {x}")
        ctx.count("cut")
        ctx.key("cut", m.conv.stem, at)


def texts(ctx, m, o, number):
    """The text file of inspect."""
    sf, rng = ctx.sf, ctx.rng
    path = ctx.path("inspect.txt")
    ctx.must(o.inspect, path)
    with open(path, "rb") as f:
        want = f.read()
    for i in range(number):
        old = rng.random() < .5
        if not old:
            os.remove(path)
        size = rng.choice([0, rng.randrange(len(want)), len(want) - 1,
                           len(want)])

        def run():
            before = O.freeze(O.content(o))
            limit(size)
            e = quiet(o.inspect, path)
            limit(resource.RLIM_INFINITY)
            return {"error": e,
                    "changed": O.diff_content(before, O.content(o))}
        r = apart(run)
        what = f"storage for {size} of {len(want)} bytes"
        ctx.check(isinstance(r, dict), f"inspect ended the process ({what})")
        ctx.check(not r["changed"], f"inspect changed the object ({what})")
        if r["error"] is None:
            with open(path, "rb") as f:
                got = f.read()
            ctx.check(got == want, f"inspect returned ({what}), but the file "
                      f"has {len(got)} bytes")
            ctx.count("inspect_complete")
        else:
            ctx.check(size < len(want), f"inspect failed ({what}): "
                      f"{r['error']}")
            ctx.count("inspect_failed")
            if not os.path.exists(path):
                with open(path, "wb"):
                    pass
        ctx.key("inspect", m.conv.stem, size)


def everywhere(ctx):
    """Storage of many sizes for one object."""
    g = gen.Gen(ctx)
    m = g.random()
    o = gen.realise(ctx.sf, m, ctx.rng)
    ref = ctx.path("ref.sofa")
    ctx.must(ctx.sf.write_sofa, ref, o, 4)
    size = os.path.getsize(ref)
    step = max(1, size // 60)
    for at in [*range(0, size, step), *range(max(0, size - 12), size)]:
        one(ctx, m, o, ctx.path("a.sofa"), 4, size, at, ctx.path("no"))


fixed = [everywhere, everywhere]
