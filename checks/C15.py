"""C15 - a failing update leaves the catalogue as it was."""
import os
import shutil

from vlib import server as W
from vlib.harness import call
from vlib.world import World, others

PROP = "C15"
LEVEL = "fault_enumeration"
RULE = ("simulated releases of the web site with pending changes of all "
        "kinds; a first run in a copy records all requests of the update, "
        "then each request fails in turn in the ways a request can fail (no "
        "connection, timeouts, TLS errors, interrupted and corrupted "
        "transfers, each HTTP error status); error, local files and temporary "
        "files are checked after each fault, later updates are judged as in "
        "C14; distinct by request, fault and pending changes")
QUICK = (16, 5)
THOROUGH = (160, 30)
CATALOGUE = "fixed"
ODD_PATHS = True
CSV = True
REQUIRED = ["faults", "fault_in_page", "fault_in_table", "recovered",
            "http_errors", "transfer_errors", "connection_errors"]
ASSUMPTIONS = ["requests are made with the requests package"]


def update(ctx, srv, path, tmp, yes, answer):
    kw = {} if path is None else {"conventions_path": path}
    if yes:
        kw["assume_yes"] = True
    with srv.online(answer, tmp):
        return call(ctx.sf.update_conventions, **kw)


def case(ctx):
    rng = ctx.rng
    w = World(rng)
    path = ctx.path("conv")
    if rng.random() < .9:
        os.mkdir(path)
        w.install(path)
    if rng.random() < .3:
        # nothing has to be updated
        update(ctx, w.server(), path, None, True, "y")
    faults(ctx, w, path, path, 2 if ctx.tier == "quick" else 8)
    ctx.sample = {"offered": sorted(w.std), "deprecated": sorted(w.dep),
                  "faults": ctx.counts.get("faults")}


def tree(folder):
    return W.snapshot(folder) if os.path.isdir(folder) else {}


def faults(ctx, w, path, folder, each):
    rng = ctx.rng
    tmp = ctx.path("tmp")
    os.makedirs(tmp, exist_ok=True)
    before = tree(folder)
    # requests of a normal update
    probe = ctx.path("probe")
    if os.path.isdir(folder):
        shutil.copytree(folder, probe)
        shutil.copytree(folder, probe + ".start")
    srv = w.server()
    r = update(ctx, srv, probe, tmp, True, "y")
    ctx.check(r.exc is None, f"update_conventions {r!r}")
    urls = list(dict.fromkeys(p for p, _ in srv.log))
    ctx.check(len(urls) > 2, f"only {urls} were requested")
    pending = w.pending(before)
    kinds = W.all_faults()
    for i, url in enumerate(urls):
        todo = kinds if each is None else [
            rng.choice(W.CONNECT), rng.choice(W.TRANSFER),
            rng.choice(W.STATUS)] + rng.sample(kinds, each)
        for f in todo:
            srv = w.server()
            srv.faults = {url: f}
            yes = rng.random() < .7
            r = update(ctx, srv, path, tmp, yes, "y")
            what = f"{f!r} when requesting {url}"
            hit = any(x == f for _, x in srv.log)
            if not hit:
                # (was not requested this time, the update was complete)
                ctx.check(r.exc is None, f"update_conventions {r!r}")
                shutil.rmtree(folder)
                if before:
                    shutil.copytree(probe + ".start", folder)
                continue
            ctx.check(r.exc is not None, f"no error after {what}",
                      output=r.out)
            now = tree(folder)
            p = others(before, now)
            ctx.check(p is None, f"after {what}: {p}", output=r.out)
            for k in before:
                ctx.check(k.endswith(os.sep) or before[k] == now[k],
                          f"after {what}: {k} was written")
            ctx.check(not os.listdir(tmp), f"after {what} temporary files "
                      f"are left: {os.listdir(tmp)}")
            ctx.count("faults")
            ctx.count("fault_in_page" if url.endswith("/")
                      else "fault_in_table")
            ctx.count("http_errors" if f in W.STATUS else "transfer_errors"
                      if f in W.TRANSFER else "connection_errors")
            ctx.key(url, f, sorted(pending))
    # the web site is available again
    r = update(ctx, w.server(), path, tmp, True, None)
    ctx.check(r.exc is None, f"updating after failures {r!r}")
    p = w.problem(before, tree(folder))
    ctx.check(p is None, f"updating after failures: {p}")
    ctx.count("recovered")
    shutil.rmtree(probe, ignore_errors=True)


def every_fault(ctx):
    """Each request fails in each way, given folder."""
    w = World(ctx.rng)
    path = ctx.path("conv")
    os.mkdir(path)
    w.install(path)
    faults(ctx, w, path, path, None)


def package_folder(ctx):
    """Each request fails in each way, folder of the package."""
    w = World(ctx.rng)
    base = os.path.join(ctx.env.pkg, "sofa_conventions", "conventions")
    shutil.rmtree(base)
    os.mkdir(base)
    w.install(base)
    faults(ctx, w, None, base, None)


fixed = [every_fault, package_folder, every_fault]
