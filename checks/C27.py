"""C27 - threads that use sofar at the same time do not affect each other."""
import contextlib
import importlib
import io
import os
import sys
import warnings

from vlib import gen, oracle as O
from vlib.program import STEPS, Program
from vlib.schedule import Scheduler

PROP = "C27"
RULE = ("two to four threads execute random programs (creating, changing, "
        "verifying, reporting, dimensions, custom data, deleting, adding "
        "missing data, comparing, copying, upgrading, writing, reading, "
        "streaming) on objects and files of their own; a scheduler hands the "
        "turn from thread to thread at lines or instructions of sofar "
        "(random, in turns, or once per place); all results are compared to "
        "those of the same programs executed one after the other; distinct "
        "by interleaving")
QUICK = (32, 4)
THOROUGH = (400, 40)
REQUIRED = ["interleavings", "first_uses", "preemptions", "switches", "events", "results_compared",
            "same_convention", "other_conventions", "by_instruction",
            "steps_verify", "steps_dimensions", "steps_add", "steps_files",
            "steps_create", "steps_equals", "steps_assign", "steps_upgrade",
            "steps_missing", "steps_broken", "steps_delete", "steps_copy"]


@contextlib.contextmanager
def silent():
    """Output and warnings of all threads are ignored."""
    quiet = gen.quiet
    gen.quiet = lambda fn, *a, **k: fn(*a, **k)
    try:
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            yield
    finally:
        gen.quiet = quiet


def different(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x, y
    return (a[len(b):] or b[len(a):])[:2]


@contextlib.contextmanager
def fresh(ctx):
    """sofar as in a new process (nothing was used before)."""
    old = {n: sys.modules.pop(n) for n in list(sys.modules)
           if n.split(".")[0] == "sofar"}
    used = ctx.sf
    try:
        ctx.sf = importlib.import_module("sofar")
        if os.path.dirname(ctx.sf.__file__) != os.path.dirname(used.__file__):
            raise RuntimeError("another sofar was imported")
        yield
    finally:
        for n in list(sys.modules):
            if n.split(".")[0] == "sofar":
                del sys.modules[n]
        sys.modules.update(old)
        ctx.sf = used


def alone(programs, name="alone"):
    with silent():
        return [p.run(name) for p in programs]


def together(ctx, programs, strategy, opcodes, name):
    s = Scheduler(ctx.rng, os.path.realpath(ctx.env.pkg) + os.sep, strategy,
                  opcodes)
    got = [None] * len(programs)

    def runner(i):
        def run():
            got[i] = programs[i].run(name)
        return run
    with silent():
        s.run([runner(i) for i in range(len(programs))])
    ctx.count("switches", s.switches)
    ctx.count("events", s.events)
    ctx.count("interleavings", int(s.switches > 0))
    ctx.count("by_instruction", int(opcodes))
    ctx.count("without_turns", int(s.free))
    ctx.key(s.digest.hexdigest())
    return got, strategy, s.switches, len(s.places)


def judge(ctx, programs, want, result):
    got, strategy, switches, _ = result
    for i, p in enumerate(programs):
        if got[i] != want[i]:
            x, y = different(want[i], got[i])
            ctx.fail(f"{O.short(y, 500)} with {len(programs)} threads instead "
                     f"of {O.short(x, 500)} without", steps=p.steps,
                     strategy=strategy, switches=switches,
                     convention=p.conv.stem)
        ctx.count("results_compared", len(want[i]))
    ctx.check(os.getcwd() == ctx.dir, "another current directory")


STRATEGIES = [("random", .5), ("random", .1), ("random", .02),
              ("random", .004), ("turns", 1), ("turns", 7), ("places", .5),
              ("places", .1)]


def case(ctx):
    if ctx.idx % 2:
        return first_use(ctx)
    with fresh(ctx):
        threads(ctx)


def first_use(ctx):
    """Short programs, each time as the first ones of a process."""
    rng = ctx.rng
    os.chdir(ctx.dir)
    g = gen.Gen(ctx)
    convs = [g.convention() for _ in range(2)]
    steps = [rng.sample(STEPS, 1) * rng.randint(1, 2)] * 2
    if rng.random() < .5:
        steps[1] = rng.sample(STEPS, 1)
    programs = [Program(ctx, conv, rng.getrandbits(40), ctx.path(f"p{i}"))
                for i, conv in enumerate(convs)]
    models = [p.models for p in programs]
    with_models = rng.random() < .3
    ways = [("pause", 10 ** 9)] + [rng.choice(STRATEGIES) for _ in range(5)]
    n = 45 if ctx.tier == "quick" else 150
    for k in range(n):
        with fresh(ctx):
            for i, p in enumerate(programs):
                p.sf, p.steps = ctx.sf, steps[i]
                p.models = models[i][:int(with_models)]
            done = together(ctx, programs, ways[k],
                            ways[k][0] != "pause" and rng.random() < .1,
                            f"together{k}")
            if not k:
                want = alone(programs)
                # one preemption at each of the places that were reached
                places = list(range(1, done[3] + 1))
                rng.shuffle(places)
                ways += [("pause", x) for x in places]
                ctx.count("preemption_places", len(places))
            elif ways[k][0] == "pause":
                ctx.count("preemptions")
            judge(ctx, programs, want, done)
            ctx.count("first_uses")
        if k + 1 == len(ways):
            break
    ctx.count("steps_" + steps[0][0])


def threads(ctx):
    rng = ctx.rng
    os.chdir(ctx.dir)
    n = rng.choice([2, 2, 2, 3, 4])
    g = gen.Gen(ctx)
    conv = g.convention()
    same = rng.random() < .6
    ctx.count("same_convention" if same else "other_conventions")
    programs = []
    for i in range(n):
        programs.append(Program(ctx, conv if same else g.convention(),
                                rng.getrandbits(40), ctx.path(f"t{i}")))
    if same and rng.random() < .4:
        # the same steps, but other data
        for p in programs[1:]:
            p.steps, p.draw = programs[0].steps, programs[0].draw
    for p in programs:
        for s in set(p.steps):
            ctx.count("steps_" + s)
    ways = [(rng.choice(STRATEGIES), rng.random() < .15) for _ in range(2)]
    # the first use of sofar in the process
    first = together(ctx, programs, *ways[0], "first")
    want = alone(programs)
    judge(ctx, programs, want, first)
    judge(ctx, programs, want, together(ctx, programs, *ways[1], "second"))
    ctx.sample = {"steps": [p.steps for p in programs],
                  "conventions": [p.conv.stem for p in programs]}


def alternating(ctx):
    """The same steps of two threads, line by line."""
    os.chdir(ctx.dir)
    for conv in ctx.rng.sample(ctx.cat.conventions, 2):
        a, b = (Program(ctx, conv, i, ctx.path(f"{conv.stem}{i}"))
                for i in range(2))
        a.steps = b.steps = ["create", "verify", "broken", "dimensions", "add",
                             "missing", "equals", "copy", "upgrade",
                             "delete", "assign", "files", "report"]
        want = alone([a, b])
        for i, s in enumerate([("turns", 1), ("turns", 2), ("turns", 13),
                               ("places", 1)]):
            judge(ctx, [a, b], want,
                  together(ctx, [a, b], s, False, f"t{i}"))


fixed = [alternating, alternating]
