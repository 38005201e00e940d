"""C07 - protected data can not be changed, refused operations change nothing."""
from vlib import gen, oracle as O
from vlib.history import History, report_of

PROP = "C07"
RULE = ("random history of 4 to 25 operations on up to four objects (created, "
        "copied, read, upgraded, repaired); each refused operation must raise "
        "and leave content, protection and verdict of all objects as before; "
        "distinct by sequence of operations")
QUICK = (32, 24)
THOROUGH = (400, 160)
REQUIRED = ["refused", "refused_read-only", "refused_deletion",
            "refused_addition", "refused_assignment", "refused_protection",
            "upgraded", "repaired", "read", "completed",
            "states_observed"]

WEIGHTS = {"refused": 12, "set": 3, "add": 2, "delete": 2, "copy": 1,
           "roundtrip": 1, "upgrade": 1, "repair": .7, "create": .6,
           "realise": .6, "query": 2, "add_missing": 1, "fix": 1,
           "inplace": .3, "complete": .8}


def case(ctx):
    h = History(ctx, PROP, ctx.rng.choice(["read", "write"]))
    h.run(WEIGHTS, ctx.rng.randint(4, 25))


def every_entry(ctx):
    """Each entry of each convention, default object and after a copy."""
    for conv in ctx.cat.conventions:
        m = gen.default_model(conv)
        h = History(ctx, PROP)
        h.op_create(conv)
        s = h.slots[0]
        if s.m.entries.keys() != m.entries.keys():
            h.slots = []
            o = gen.realise(ctx.sf, m)
            from vlib.history import Slot
            s = Slot(o, m, "created")
            h.slots = [s]
        for n, e in conv.api().items():
            if O.read_only(e["flags"]):
                h.refused(s, "read-only assignment", setattr, s.o, n, "x")
            if O.mandatory(e["flags"]):
                h.refused(s, "deletion", s.o.delete, n)
            if e["type"] == "attribute":
                h.refused(s, "addition", s.o.add_attribute, n, "x")
            else:
                h.refused(s, "addition", s.o.add_variable, n, 1,
                          e["type"], e["dimensions"].split(", ")[0])
        report_of(s.o, "read")
        ctx.key(conv.stem)


fixed = [every_entry] * 4
