"""C28 - an interrupted update can be completed later."""
import contextlib
import copy
import errno
import io
import os
import resource
import shutil
import signal
import sys

from vlib import server as W
from vlib.harness import call
from vlib.world import World

PROP = "C28"
LEVEL = "fault_enumeration"
RULE = ("simulated releases of the web site with pending changes of all "
        "kinds; a first run in a copy records all operations on files of the "
        "update, then a process of its own is ended, interrupted or gets an "
        "error from the file system at one operation, or can only write a "
        "part of a file; the following update (after further interruptions, "
        "of the same or a later release) is judged as in C14; distinct by "
        "operation, kind of interruption and pending changes")
QUICK = (32, 14)
THOROUGH = (320, 80)
CATALOGUE = "fixed"
ODD_PATHS = True
CSV = True
REQUIRED = ["interruptions", "recovered", "kind_kill", "kind_partial",
            "kind_interrupt", "kind_error", "kind_full", "later_release",
            "twice", "deprecated", "restored", "changed", "added"]
ASSUMPTIONS = ["operations on files are those Python reports to audit hooks; "
               "completed operations are not lost"]
KINDS = ["kill", "partial", "interrupt", "error", "full"]
ERRORS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EMFILE]
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC
NAMED = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link",
         "os.symlink", "os.truncate")


class Hook:
    """Counts the operations below the given folders and disturbs one."""

    def __init__(self, folders, kind=None, at=None, value=0):
        self.folders = tuple(os.path.realpath(f) for f in folders)
        self.kind, self.at, self.value = kind, at, value
        self.n, self.hit, self.on = 0, False, False

    def inside(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, (str, os.PathLike)):
            return False
        p = os.path.abspath(p)
        return any(p == f or p.startswith(f + os.sep) for f in self.folders)

    def __call__(self, event, args):
        if not self.on:
            return
        if event == "open":
            if not (isinstance(args[2], int) and args[2] & WRITE):
                return
        elif event not in NAMED:
            return
        self.on = False
        try:
            use = any(self.inside(a) for a in args[:2])
        finally:
            self.on = True
        if not use:
            return
        self.n += 1
        if self.n != self.at:
            return
        self.hit = True
        if self.kind == "kill":
            os._exit(9)
        if self.kind == "interrupt":
            raise KeyboardInterrupt
        if self.kind == "error":
            raise OSError(self.value, os.strerror(self.value), args[0])
        # the disk is full (and the process ends)
        if self.kind == "partial":
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.value, self.value))


def disturbed(ctx, w, path, folder, tmp, hook):
    """Update in another process.  Returns its number of operations, what
    happened (done, error, or end), and if the operation was reached."""
    r, s = os.pipe()
    srv = w.server()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            kw = {} if path is None else {"conventions_path": path}
            sys.addaudithook(hook)
            what = "done"
            with srv.online(None, tmp), \
                    contextlib.redirect_stdout(io.StringIO()):
                hook.on = True
                try:
                    ctx.sf.update_conventions(assume_yes=True, **kw)
                except BaseException as e:      # noqa: BLE001
                    what = "error " + repr(e)
                hook.on = False
            os.write(s, f"{hook.n} {int(hook.hit)} {what}".encode())
            code = 0
        finally:
            os._exit(code)
    os.close(s)
    out = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        out += x
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if not out:
        ended = os.waitstatus_to_exitcode(status)
        if hook.kind is None or ended not in (9, -signal.SIGXFSZ):
            raise RuntimeError(f"update ended with status {ended}")
        return None, True, "end"
    n, hit, what = out.decode(errors="replace").split(" ", 2)
    return int(n), hit == "1", what


def tree(folder):
    return W.snapshot(folder) if os.path.isdir(folder) else {}


def case(ctx):
    rng = ctx.rng
    w = World(rng)
    path = ctx.path(rng.choice(["conv", "conv", "a b", "c[1]"]))
    if rng.random() < .85:
        os.mkdir(path)
        w.install(path)
    interruptions(ctx, w, path, path, 8 if ctx.tier == "quick" else 40)
    ctx.sample = {"offered": sorted(w.std), "deprecated": sorted(w.dep),
                  "interruptions": ctx.counts.get("interruptions")}


def reset(folder, start):
    if os.path.isdir(folder):
        shutil.rmtree(folder)
    if os.path.isdir(start):
        shutil.copytree(start, folder)


def interruptions(ctx, w, path, folder, number):
    rng = ctx.rng
    tmp, start = ctx.path("tmp"), ctx.path("start")
    os.makedirs(tmp, exist_ok=True)
    if os.path.isdir(folder):
        shutil.copytree(folder, start)
    before = tree(folder)
    pending = w.pending(before)
    n, _, what = disturbed(ctx, w, path, folder, tmp, Hook([folder]))
    ctx.check(what == "done", f"update_conventions: {what}")
    p = w.problem(before, tree(folder))
    ctx.check(p is None, f"after updating: {p}")
    for s in pending:
        here = "" if s in w.std else "deprecated/"
        away = "deprecated/" if s in w.std else ""
        ctx.count("restored" if away + s + ".csv" in before and not here
                  else "deprecated" if away + s + ".csv" in before
                  else "changed" if here + s + ".csv" in before else "added")
    if number is None:
        todo = [(i, k) for i in range(1, n + 1) for k in KINDS]
    else:
        todo = [(rng.randint(1, n), rng.choice(KINDS))
                for _ in range(number)] if n else []
    ctx.count("operations", n)
    for at, kind in todo:
        reset(folder, start)
        one(ctx, w, path, folder, tmp, before, at, kind, sorted(pending))
    reset(folder, start)


def one(ctx, w, path, folder, tmp, before, at, kind, pending):
    rng = ctx.rng
    steps = []
    while True:
        value = rng.choice(ERRORS) if kind == "error" else rng.choice(
            [0, 1, 10, 100, 1000])
        n, hit, what = disturbed(ctx, w, path, folder, tmp,
                                 Hook([folder], kind, at, value))
        if not hit:
            break
        left = os.listdir(tmp)
        ctx.count("interruptions")
        ctx.count("kind_" + kind)
        ctx.count("outcome_" + what.split()[0])
        ctx.key(at, kind, value, pending)
        steps.append((at, kind, value, what))
        if what != "end":
            ctx.check(not left, "temporary files are left after an error: "
                      f"{left}", steps=steps)
        for x in left:
            shutil.rmtree(os.path.join(tmp, x))
        if len(steps) > 1:
            ctx.count("twice")
        if rng.random() < .2:
            # a later release
            v = copy.deepcopy(w)
            v.evolve()
            if not {*w.std, *w.dep} - {*v.std, *v.dep}:
                w = v
                steps.append("later release")
                ctx.count("later_release")
        if len(steps) > 3 or rng.random() < .7:
            break
        at, kind = rng.randint(1, 6), rng.choice(KINDS)
    with w.server().online(None, tmp):
        r = call(ctx.sf.update_conventions, assume_yes=True,
                 **({} if path is None else {"conventions_path": path}))
    ctx.check(r.exc is None, f"update after an interruption: {r!r}",
              steps=steps)
    after = {k: v for k, v in tree(folder).items()
             if k in before or k.endswith((".csv", ".json"))}
    p = w.problem(before, after)
    ctx.check(p is None, f"update after an interruption: {p}", steps=steps,
              output=r.out)
    ctx.count("recovered")


def every_operation(ctx):
    """All kinds of interruptions at all operations."""
    w = World(ctx.rng)
    path = ctx.path("conv")
    os.mkdir(path)
    w.install(path, ctx.rng.choice([None, "both", "away", "old"]))
    interruptions(ctx, w, path, path, None)


def first_update(ctx):
    """The folder is created by the update."""
    w = World(ctx.rng)
    path = ctx.path("conv")
    interruptions(ctx, w, path, path, None)


def package_folder(ctx):
    """The folder of the package."""
    w = World(ctx.rng)
    base = os.path.join(ctx.env.pkg, "sofa_conventions", "conventions")
    shutil.rmtree(base)
    os.mkdir(base)
    w.install(base)
    interruptions(ctx, w, None, base, None)


fixed = [every_operation, first_update, package_folder, every_operation]
