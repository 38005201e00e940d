"""Compares the verdict of Sofa.verify with the reference model."""
import re

from . import gen, oracle as O
from .harness import call


def named(report, name):
    """Does a line of the report name this entry?"""
    return re.search(r"(?<![\w])" + re.escape(name) + r"(?![\w])", report) \
        is not None


def listed(report):
    """Entries that are listed with their actual shape."""
    return re.findall(r"^- (\S+) has shape", report, re.M)


def judge(ctx, o, m, mode, families, names=True):
    """Verdict and report of verify in raise mode."""
    err, warn = O.issues(m, ctx.cat, mode)
    out = call(o.verify, mode=mode)
    ctx.check(out.exc is None or isinstance(out.exc, ValueError),
              f"verify {out!r} instead of a ValueError with a report",
              model=gen.describe(m), issues=err)
    ctx.check((out.exc is not None) == bool(err),
              f"verify(mode={mode}) {out!r}, but the object "
              + (f"breaks {err[:4]}" if err else "has no issues"),
              model=gen.describe(m))
    ctx.check(out.value is None, "verify returned something")
    if err and names:
        report = str(out.exc)
        for fam, name, text in err:
            if fam in families:
                ctx.check(named(report, name),
                          f"{name} ({fam}: {text}) is not named",
                          report=report)
        if "shape" in families:
            wrong = {n for f, n, _ in err if f == "shape"}
            for n in listed(report):
                ctx.check(n in wrong, f"{n} is reported but has a correct "
                          "shape", report=report)
    ctx.count("rejected" if err else "accepted")
    return err, warn, out
