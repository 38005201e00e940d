"""Runs the workload of a check and reports what its monitor observed.

A check is a module ``checks/<ID>.py`` with

``PROP``      the property id
``RULE``      how cases are made and what makes one non-trivial
``case(ctx)`` generates one case from ``ctx.rng``, executes it on the code
              under test and judges the execution.  Reports ``ctx.fail(...)``.
``fixed``     optional list of deterministic cases ``f(ctx)`` executed first
``known``     optional list of ``(text, f)``; ``f(ctx)`` returns True while the
              listed finding is still present
``QUICK, THOROUGH``  (batches, cases per batch)

Cases are executed in forked children.  Each child installs the current
sources of the repository together with a convention catalogue in a scratch
folder of its own, so that the check never touches /repo and each batch can
use another catalogue and another installation path.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DISABLED = os.environ.get("VERIF_INPROC")


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


class Inconclusive(Exception):
    pass


class Outcome:
    """Everything observable about one call of the code under test."""

    def __init__(self):
        self.value = None
        self.exc = None
        self.out = ""
        self.warns = []

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.exc is not None:
            return f"raised {type(self.exc).__name__}: {self.exc}"[:600]
        try:
            return f"returned {self.value!r}"[:300]
        except AttributeError:      # (objects that have no convention)
            return f"returned {type(self.value).__name__}"


def call(fn, *args, **kwargs):
    """Call and record value, exception, console output and warnings."""
    o = Outcome()
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as w, \
            contextlib.redirect_stdout(buf):
        warnings.simplefilter("always")
        try:
            o.value = fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:               # noqa: BLE001
            if isinstance(e, OSError) and e.errno in (28, 12, 23, 24):
                raise Inconclusive(f"environment: {e!r}") from e
            o.exc = e
    o.out = buf.getvalue()
    o.warns = [str(x.message) for x in w
               if issubclass(x.category, UserWarning)]
    return o


UNREADABLE = (AttributeError, TypeError, ValueError, LookupError)


class Ctx:
    def __init__(self, prop, seed, batch, idx, env):
        self.prop, self.seed, self.batch, self.idx = prop, seed, batch, idx
        h = hashlib.sha256(f"{seed}:{prop}:{batch}:{idx}".encode()).digest()
        self.rng = random.Random(h)
        self.np = np.random.default_rng(list(h[:16]))
        self.env = env
        self.sf = env.sf
        self.cat = env.cat
        self.dir = env.casedir()
        self.counts = {}
        self.keys = []
        self.sample = None
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def check(self, cond, msg, **detail):
        self.counts["monitor_evaluations"] = \
            self.counts.get("monitor_evaluations", 0) + 1
        if not cond:
            raise Violation(msg, **detail)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def key(self, *what):
        """Register a distinct, non-trivial situation that was judged."""
        self.keys.append(repr(what))

    def must(self, fn, *args, **kwargs):
        """A call that has to succeed."""
        o = call(fn, *args, **kwargs)
        if o.exc is not None:
            name = getattr(fn, "__name__", str(fn))
            raise Violation(f"{name} raised {type(o.exc).__name__}: "
                            f"{str(o.exc)[:500]}", args=short(args),
                            kwargs=short(kwargs), trace=tb(o.exc))
        return o

    def path(self, name):
        return os.path.join(self.dir, name)


def tb(exc):
    return "".join(traceback.format_exception(exc))[-2500:]


def short(x, n=400):
    try:
        r = repr(x)
    except Exception:                        # noqa: BLE001
        r = f"<{type(x).__name__}>"
    return r if len(r) <= n else r[:n] + "..."


class Env:
    """Scratch install of one batch."""

    def __init__(self, root, cat, subdir, csv):
        from . import install
        self.root, self.cat = root, cat
        self.base = os.path.join(root, subdir)
        os.makedirs(self.base, exist_ok=True)
        self.pkg = install.install(self.base, cat, csv)
        sys.dont_write_bytecode = True
        for m in [m for m in sys.modules
                  if m == "sofar" or m.startswith("sofar.")]:
            del sys.modules[m]
        sys.path.insert(0, self.base)
        importlib.invalidate_caches()
        self.sf = importlib.import_module("sofar")
        if not os.path.abspath(self.sf.__file__).startswith(self.base):
            raise RuntimeError("wrong sofar imported: " + self.sf.__file__)
        self.work = os.path.join(root, "work")
        self.n = 0

    def casedir(self):
        self.n += 1
        d = os.path.join(self.work, str(self.n))
        os.makedirs(d)
        return d

    def touches_sofar(self, exc):
        t = exc.__traceback__
        while t is not None:
            if t.tb_frame.f_code.co_filename.startswith(self.pkg):
                return True
            t = t.tb_next
        return False


def rng_for(*what):
    return random.Random(hashlib.sha256(
        ":".join(map(str, what)).encode()).digest())


def run_batch(mod, seed, batch, root, emit, only=None, tier="quick"):
    """Executed in the child."""
    from . import cat as C
    rng = rng_for(seed, mod.PROP, "batch", batch)
    if batch < 0:
        cat, subdir = C.fixed(), "inst"
    else:
        cat, subdir = make_catalogue(mod, rng, batch), make_subdir(mod, rng)
    env = Env(root, cat, subdir, getattr(mod, "CSV", False))
    todo = []
    if batch < 0:
        for i, f in enumerate(getattr(mod, "fixed", [])):
            todo.append((i, f, None))
        for i, (text, f) in enumerate(getattr(mod, "known", [])):
            todo.append((1000 + i, f, text))
        # (one batch for each of them)
        todo = todo[-1 - batch:-batch]
    else:
        n = (mod.QUICK if tier == "quick" else mod.THOROUGH)[1]
        # (only to look for survivors with tools/mutants.py)
        n = max(1, round(n * float(os.environ.get("VERIF_SCALE", 1))))
        todo = [(i, mod.case, None) for i in range(n)]
    for idx, f, known in todo:
        if only is not None and idx != only:
            continue
        ctx = Ctx(mod.PROP, seed, batch, idx, env)
        cwd = os.getcwd()
        rec = {"idx": idx, "batch": batch}
        try:
            os.chdir(ctx.dir)
            with warnings.catch_warnings(), \
                    contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                r = f(ctx)
            if known is not None and r:
                if not listed(mod.PROP, known):
                    raise Violation(known)
                rec["known"] = known
        except Violation as e:
            rec["violation"] = e.msg
            rec["detail"] = {k: short(v, 1500) if not isinstance(v, str)
                             else v[:3000] for k, v in e.detail.items()}
        except Inconclusive as e:
            rec["inconclusive"] = str(e)
        except (MemoryError, KeyboardInterrupt) as e:
            rec["inconclusive"] = repr(e)
        except Exception as e:               # noqa: BLE001
            if isinstance(e, OSError) and e.errno in (28, 12, 23, 24):
                rec["inconclusive"] = repr(e)
            elif env.touches_sofar(e):
                rec["violation"] = ("unexpected "
                                    f"{type(e).__name__}: {str(e)[:500]}")
                rec["detail"] = {"trace": tb(e)}
            elif isinstance(e, UNREADABLE):
                # what sofar returned is none of the things it may return
                rec["violation"] = ("what sofar returned can not be read: "
                                    f"{type(e).__name__}: {str(e)[:500]}")
                rec["detail"] = {"trace": tb(e)}
            else:
                rec["error"] = tb(e)
        finally:
            os.chdir(cwd)
            shutil.rmtree(ctx.dir, ignore_errors=True)
        rec["counts"] = ctx.counts
        rec["keys"] = [hashlib.sha1(k.encode()).hexdigest()[:12]
                       for k in ctx.keys]
        if ctx.sample is not None and idx < 2:
            rec["sample"] = short(ctx.sample, 1200)
        emit(rec)


def make_catalogue(mod, rng, batch):
    from . import cat as C, catgen
    mode = getattr(mod, "CATALOGUE", "mixed")
    if mode == "fixed" or (mode == "mixed" and batch % 3 == 0):
        return C.fixed()
    return catgen.random_catalogue(rng)


def make_subdir(mod, rng):
    if not getattr(mod, "ODD_PATHS", False):
        return rng.choice(["inst", "in_st", "some folder"])
    from . import catgen
    return catgen.odd_path(rng)


# ---------------------------------------------------------------- scheduler
def main(prop, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    mod = importlib.import_module(f"checks.{prop}")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--thorough" in argv:
        tier = os.environ["VERIF_TIER"] = "thorough"
    only = None
    if "--replay" in argv:
        rp = json.load(open(argv[argv.index("--replay") + 1]))
        seed, tier = rp["seed"], rp["tier"]
        only = (rp["batch"], rp["case"])
        os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    cap = float(os.environ.get(
        "VERIF_CAP", 420 if tier == "quick" else 760))
    n_batches = (mod.QUICK if tier == "quick" else mod.THOROUGH)[0]
    n_fixed = len(getattr(mod, "fixed", [])) + len(getattr(mod, "known", []))
    batches = [-1 - i for i in range(n_fixed)] + list(range(n_batches))
    if only is not None:
        batches = [only[0]]
    preload()
    scratch = tempfile.mkdtemp(prefix=f"v{prop}.")
    results, problems = [], []
    live = {}
    retries = {}
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    stop = False
    try:
        while batches or live:
            while batches and len(live) < workers and not stop:
                if time.time() - t0 > cap:
                    batches = []
                    break
                b = batches.pop(0)
                root = os.path.join(scratch, f"b{b}")
                os.makedirs(root)
                log = os.path.join(scratch, f"b{b}.log")
                pid = os.fork()
                if pid == 0:
                    child(mod, seed, b, root, log,
                          None if only is None else only[1], tier)
                live[pid] = (b, root, log, time.time())
            if not live:
                break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.01)
                for p, (b, root, log, t) in list(live.items()):
                    if time.time() - t > 240 + (
                            900 if tier == "thorough" else 0):
                        os.kill(p, signal.SIGKILL)
                        live[p] = (b, root, log, 1e18)
                        retries[b] = 9
                        problems.append(f"batch {b} ran out of time")
                continue
            b, root, log, t = live.pop(pid)
            recs = read_log(log)
            shutil.rmtree(root, ignore_errors=True)
            if os.WIFSIGNALED(status) and t < 1e17:
                sig = os.WTERMSIG(status)
                if sig == signal.SIGKILL:
                    problems.append(f"batch {b} was killed")
                elif retries.get(b, 0) < 1:
                    retries[b] = 1
                    batches.insert(0, b)
                    continue
                else:
                    last = recs[-1]["idx"] + 1 if recs else 0
                    recs.append({
                        "idx": last, "batch": b, "counts": {}, "keys": [],
                        "violation": "process died from signal "
                        f"{signal.Signals(sig).name}", "detail": {}})
            elif os.WIFEXITED(status) and os.WEXITSTATUS(status) != 0:
                problems.append(f"batch {b} ended with exit status "
                                f"{os.WEXITSTATUS(status)}")
            results.extend(recs)
            if any("violation" in r for r in recs):
                stop = True
                batches = []
    finally:
        for p in live:
            with contextlib.suppress(OSError):
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
        shutil.rmtree(scratch, ignore_errors=True)
    return report(mod, seed, tier, results, problems, t0, only)


def child(mod, seed, b, root, log, only, tier):
    code = 3
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        fd = open(log, "w")

        def emit(rec):
            fd.write(json.dumps(rec, default=str) + "\n")
            fd.flush()
        run_batch(mod, seed, b, root, emit, only, tier)
        code = 0
    except BaseException as e:               # noqa: BLE001
        try:
            rec = {"idx": -1, "batch": b, "counts": {}, "keys": []}
            if isinstance(e, Inconclusive):
                rec["inconclusive"] = str(e)
            elif "/sofar/" in "".join(traceback.format_exception(e)) and \
                    not isinstance(e, OSError):
                # the package can not even be imported / set up
                rec["violation"] = ("sofar can not be used: "
                                    f"{type(e).__name__}: {e}")
                rec["detail"] = {"trace": tb(e)}
            else:
                rec["error"] = tb(e)
            emit(rec)
            code = 0
        except BaseException:                # noqa: BLE001
            traceback.print_exc()
    finally:
        os._exit(code)


def read_log(log):
    recs = []
    try:
        with open(log) as f:
            for line in f:
                with contextlib.suppress(ValueError):
                    recs.append(json.loads(line))
    except OSError:
        pass
    return recs


def preload():
    """Import heavy dependencies once, before forking."""
    import netCDF4                           # noqa: F401
    import requests                          # noqa: F401
    import bs4                               # noqa: F401
    import packaging.version                 # noqa: F401
    import numpy.testing                     # noqa: F401
    import numpy.ma                          # noqa: F401
    import platform
    platform.python_compiler()


def listed(prop, text):
    """Whether a finding is listed in the file of known findings."""
    with open(os.path.join(HERE, "KNOWN_FINDINGS.md")) as f:
        return any(x.startswith(f"finding: property={prop} ")
                   and x.rstrip().endswith(text) for x in f)


def report(mod, seed, tier, results, problems, t0, only):
    prop = mod.PROP
    results.sort(key=lambda r: (r["batch"], r["idx"]))
    viol = [r for r in results if "violation" in r]
    errors = [r for r in results if "error" in r]
    inconcl = [r for r in results if "inconclusive" in r]
    known = [r["known"] for r in results if "known" in r]
    counts, keys = {}, set()
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        keys.update(r["keys"])
    samples = [r["sample"] for r in results if "sample" in r][:6]
    n_cases = sum(1 for r in results if r["idx"] >= 0)
    level = getattr(mod, "LEVEL", "exploration")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": n_cases,
                       "distinct_nontrivial": len(keys),
                       "rule": mod.RULE, "samples": samples or ["none"],
                       "observed": counts,
                       "batches": len({r["batch"] for r in results}),
                       "inconclusive_cases": len(inconcl)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    if only is None:
        with open(os.path.join(evd, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for text in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {text}")
    print(f"{prop} {tier} seed={seed}: {n_cases} cases, {len(keys)} distinct, "
          f"{len(viol)} violations, {len(errors)} harness errors, "
          f"{len(inconcl)} inconclusive, {ev['wall_s']} s")
    print("observed: " + json.dumps(counts, sort_keys=True))
    if os.environ.get("VERIF_DEBUG"):
        for t in sorted({e["error"] for e in errors})[:6]:
            print("HARNESS ERROR\n" + t)
    if viol:
        rpd = os.path.join(evd, "replay")
        os.makedirs(rpd, exist_ok=True)
        for v in viol[:3]:
            rp = os.path.join(rpd, f"{prop}-{tier}-{seed}-{v['batch']}-"
                              f"{v['idx']}.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier,
                           "batch": v["batch"], "case": v["idx"],
                           "violation": v["violation"],
                           "detail": v.get("detail"),
                           "replay": f"./run.sh {prop} --replay {rp}"},
                          f, indent=1)
            print(f"  {v['violation'][:1500]}")
            for k, d in (v.get("detail") or {}).items():
                print(f"    {k}: {str(d)[:1500]}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    for e in errors[:3]:
        print(f"HARNESS ERROR batch {e['batch']} case {e['idx']}\n"
              + e["error"])
    for p in problems[:5]:
        print("PROBLEM " + p)
    if errors:
        return 3
    if only is not None:
        return 0
    need = getattr(mod, "REQUIRED", ["monitor_evaluations"])
    missing = [k for k in need if not counts.get(k)]
    if missing or problems or n_cases == 0 or \
            len(inconcl) > 0.02 * max(n_cases, 1):
        for r in inconcl[:3]:
            print("INCONCLUSIVE " + r["inconclusive"][:500])
        print(f"INCONCLUSIVE: nothing observed for {missing}"
              if missing else "INCONCLUSIVE")
        return 2
    return 0
