"""C24 - the congruency check reports exactly the diverging conventions."""
import importlib
import os
import re

from vlib import server as W
from vlib.harness import call
from vlib.world import EXCLUDED, World
from vlib import tables as T

PROP = "C24"
RULE = ("simulated sofaconventions.org and branches of the SOFA toolbox with "
        "tables that are identical, spelled with other line endings and "
        "trailing tabs, different in one place, or missing on either side; "
        "the printed report, the saved files and all other files are compared "
        "with the difference of the two sites; each request fails in turn; "
        "distinct by the kinds of divergence, branch and folder")
QUICK = (24, 30)
THOROUGH = (240, 300)
CATALOGUE = "fixed"
ODD_PATHS = True
CSV = True
REQUIRED = ["reports", "silent", "missing_left", "missing_right", "different",
            "respelled", "saved", "excluded", "faults", "branches"]
KINDS = ["same", "same", "spelling", "spelling", "different", "left", "right"]


def function():
    # (the package has a function with the name of the module)
    return importlib.import_module(
        "sofar.update_conventions")._check_congruency


def change(rng, raw):
    """Another table that differs in more than the spelling."""
    while True:
        b = bytearray(raw)
        k = rng.random()
        if k < .3:
            i = rng.randrange(len(b))
            b[i:i + 1] = bytes([rng.choice(b"aZ09.\t")])
        elif k < .5:
            i = rng.randrange(len(b) + 1)
            b[i:i] = bytes([rng.choice(b"aZ09. \t")])
        elif k < .6:
            b = b.replace(b"\r\n", b"\n").rstrip(b"\n\t") + b" \n"
        elif k < .7:
            # a line more or less at the end or in between
            lines = bytes(b).split(b"\n")
            if rng.random() < .5:
                del lines[rng.randrange(len(lines))]
            else:
                lines.insert(rng.randrange(len(lines) + 1), b"X")
            b = b"\n".join(lines)
        elif k < .8:
            # upper and lower case
            b = bytes(b).swapcase()
        else:
            i = rng.randrange(len(b))
            del b[i]
        b = bytes(b)
        if W.normal(b) != W.normal(raw) and not odd(b):
            return b


def odd(b):
    # (carriage returns within a line are not generated)
    return b"\r" in b.replace(b"\r\n", b"\n")


def respell(rng, raw):
    lines = W.normal(raw).split(b"\n")
    end = rng.choice([b"\n", b"\r\n"])
    out = []
    for i, x in enumerate(lines):
        tabs = b"\t" * rng.choice([0, 0, 1, 3])
        last = i == len(lines) - 1
        out.append(x + tabs + (b"" if last else rng.choice(
            [end, end, b"\n", b"\r\n"])))
    return b"".join(out)


def sites(rng):
    w = World(rng)
    for s in EXCLUDED:
        w.std.pop(s, None)
    names = sorted(w.std)
    while len(names) < 3 or rng.random() < .5:
        s = w.new_stem()
        w.std[s] = w.table(s)
        names = sorted(w.std)
    w.raw.clear()
    w.respell()
    dull = rng.random() < .15
    left, right, want = {}, {}, {}
    for s in names:
        raw = w.raw[s]
        if odd(raw):
            raw = W.normal(raw)
        k = rng.choice(KINDS[:4] if dull else KINDS)
        n = s + ".csv"
        if k != "right":
            left[n] = raw
        if k != "left":
            right[n] = {"spelling": lambda: respell(rng, raw),
                        "different": lambda: change(rng, raw)}.get(
                            k, lambda: raw)()
        if rng.random() < .5:
            left, right = dict(reversed(left.items())), right
        want[n] = k
    for s in EXCLUDED:
        n = s + ".csv"
        for side in (left, right):
            if rng.random() < .3:
                side[n] = T.render(rng, w.table(s))
                want[n] = "excluded"
    return left, right, want


def kinds(out):
    got = {}
    for line in out.splitlines():
        m = re.fullmatch(r"\W*(\S+\.csv) (.*)", line)
        if not m:
            continue
        k = "different" if "differ" in m[2] else "left" if "SOFAtoolbox" in \
            m[2] else "right" if "sofaconventions" in m[2] else m[2]
        got.setdefault(m[1], []).append(k)
    return got


def case(ctx):
    rng = ctx.rng
    left, right, want = sites(rng)
    branch = rng.choice(["master", "develop", "dev_1.2", "release"])
    box = {branch: right}
    for b in ("master", "develop"):
        # other branches have other content
        if b != branch:
            box[b] = {n: change(rng, v) for n, v in left.items()
                      if rng.random() < .6}
    expect = {n: [k] for n, k in want.items()
              if k in ("different", "left", "right")}
    usable = any(k != "excluded" or n in left for n, k in want.items()
                 if n in left) and bool(right)
    if not left or not right or not usable:
        return
    kw = {}
    if branch != "master" or rng.random() < .5:
        kw["branch"] = branch
        ctx.count("branches")
    save = None
    if rng.random() < .7:
        save = ctx.path(rng.choice(["out", "a b", "x[1]", "y.z"]))
        os.mkdir(save)
        if rng.random() < .5:
            for f in ("note.txt", "sofatoolbox/old.csv", "sofaconventions/y",
                      "sofatoolbox/" + rng.choice(sorted(left))):
                os.makedirs(os.path.dirname(os.path.join(save, f)),
                            exist_ok=True)
                with open(os.path.join(save, f), "wb") as fid:
                    fid.write(b"old content")
        kw["save_dir"] = save
    pkg = W.snapshot(ctx.env.pkg)
    before = W.snapshot(save) if save else {}
    work = sorted(os.listdir("."))

    def server():
        return W.Server(left, {}, rng, rng.randrange(12), toolbox=box)
    fn = function()
    srv = server()
    with srv.online():
        r = call(fn, **kw)
    ctx.check(r.exc is None, f"the congruency check raised {r!r}")
    got = kinds(r.out)
    ctx.check(got == expect, f"report {got} instead of {expect}", output=r.out)
    if not expect:
        ctx.check(r.out.strip() == "", f"nothing diverges but {r.out!r} is "
                  "printed")
        ctx.count("silent")
    ctx.check(not srv.unknown, f"requests of {srv.unknown}")
    after = W.snapshot(save) if save else {}
    if save:
        files = {k: v for k, v in after.items() if v is not None}
        for n, k in want.items():
            if k != "different":
                continue
            for sub, side in (("sofaconventions", left),
                              ("sofatoolbox", right)):
                f = files.pop(os.path.join(sub, n), None)
                ctx.check(f is not None, f"{sub}/{n} was not saved")
                ctx.check(W.normal(f) == W.normal(side[n]),
                          f"{sub}/{n} was saved with other content",
                          saved=f, offered=side[n])
                before.pop(os.path.join(sub, n), None)
                ctx.count("saved")
        old = {k: v for k, v in before.items() if v is not None}
        ctx.check(files == old, "other files were changed or created: "
                  f"{sorted(set(files) ^ set(old)) or 'content'}")
    ctx.check(sorted(os.listdir(".")) == work, "files in current folder")
    ctx.check(W.snapshot(ctx.env.pkg) == pkg, "the local catalogue changed")
    for n, k in want.items():
        ctx.count({"left": "missing_left", "right": "missing_right",
                   "different": "different", "spelling": "respelled",
                   "excluded": "excluded"}.get(k, "identical"))
    ctx.count("reports")
    ctx.key(sorted(want.values()), branch == "master", bool(save))
    # failing requests
    urls = list(dict.fromkeys(p for p, _ in srv.log))
    for u in rng.sample(urls, min(3, len(urls))):
        srv = server()
        page = u == W.BASE or u.startswith(W.GIT)
        f = rng.choice(W.CONNECT + W.TRANSFER + ([] if page else W.STATUS))
        srv.faults = {u: f}
        with srv.online():
            r = call(fn, **kw)
        ctx.check(r.exc is not None, f"{f} of {u} was not reported",
                  output=r.out)
        ctx.check(not kinds(r.out), f"a report was printed after {f} of {u}",
                  output=r.out)
        ctx.count("faults")
    ctx.sample = {"conventions": want, "branch": branch}


def refused(ctx):
    """Sites without conventions, folders that do not exist."""
    fn = function()
    left, right, _ = sites(ctx.rng)
    for a, b in (({}, right), (left, {})):
        if a or b:
            srv = W.Server(a, {"Foo_1.0.csv": b"x"}, toolbox={"master": b})
            with srv.online():
                r = call(fn)
            ctx.check(isinstance(r.exc, ValueError), "a site without any "
                      f"conventions: {r!r}")
    srv = W.Server(left, {}, toolbox={"master": right})
    with srv.online():
        r = call(fn, ctx.path("does_not_exist"))
    ctx.check(isinstance(r.exc, ValueError), f"folder does not exist: {r!r}")
    ctx.check(not os.path.exists(ctx.path("does_not_exist")),
              "the folder was created")
    ctx.check(not srv.log or not kinds(r.out), "report")
    srv = W.Server(left, {}, toolbox={"master": right})
    with srv.online():
        r = call(fn, branch="none")
    ctx.check(r.exc is not None, "a branch that does not exist")


fixed = [refused]
