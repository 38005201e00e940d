"""Local and online catalogues with a history, for the update checks."""
import copy
import json
import os

from . import cat as C, server as W, tables as T

NAMES = ["GeneralTF", "GeneralTF-E", "GeneralStringData", "General2",
         "SimpleFreeFieldHRIR", "MultiSpeakerBRIR", "Foo", "MyConvention",
         "A", "SingleRoomSRIR"]
EXCLUDED = ["General_1.0", "General_2.1", "GeneralString_0.2"]
VERSIONS = ["0.2", "0.4", "1.0", "1.1", "2.0", "10.0"]
OTHER = {"README.md": b"# conventions\n", "notes.txt": b"x\r\n\t\n",
         "GeneralTF_1.0.mat": b"\x00\x01", "lonely_1.0.json": b"{}",
         "deprecated/old.txt": b"old", "deprecated/lonely_0.1.json": b"{ }",
         "sub/Foo_1.0.csv": b"a\tb\r\n", ".hidden": b"",
         "GeneralTF_2.0.csv.bak": b"backup", "Foo.xlsx": b"PK"}


class World:
    def __init__(self, rng):
        self.rng = rng
        # what the web site offers: stem -> rows
        self.std, self.dep = {}, {}
        self.raw = {}
        # what is stored locally besides the tables of the web site
        self.local = {"std": {}, "dep": {}}
        self.other = {}
        for _ in range(rng.randint(2, 7)):
            self.offer(self.new_stem())
        for _ in range(rng.randint(0, 2)):
            s = rng.choice(EXCLUDED)
            if s not in self.dep:
                self.std[s] = self.table(s)
        self.respell()

    def new_stem(self):
        for _ in range(50):
            s = f"{self.rng.choice(NAMES)}_{self.rng.choice(VERSIONS)}"
            if s not in self.std and s not in self.dep:
                return s
        return f"Foo_{self.rng.randint(100, 9999)}.0"

    def offer(self, stem):
        (self.std if self.rng.random() < .65 else self.dep)[stem] = \
            self.table(stem)

    def table(self, stem):
        n, v = stem.split("_")
        return T.random_rows(self.rng, n, v)[:self.rng.randint(2, 12)]

    def respell(self):
        """The bytes the server sends."""
        for s, rows in list(self.std.items()) + list(self.dep.items()):
            if s not in self.raw or self.rng.random() < .3:
                self.raw[s] = T.render(self.rng, rows)

    def server(self):
        return W.Server(
            {s + ".csv": self.raw[s] for s in self.std},
            {s + ".csv": self.raw[s] for s in self.dep},
            self.rng, self.rng.randrange(12))

    # ------------------------------------------------------------ local part
    def install(self, base, state=None):
        """An older local catalogue (json files are always compiled)."""
        rng = self.rng
        os.makedirs(os.path.join(base, "deprecated"), exist_ok=True)
        for s in list(self.std) + list(self.dep):
            home = "std" if s in self.std else "dep"
            away = "dep" if home == "std" else "std"
            rows = (self.std.get(s) or self.dep.get(s))
            x = state or rng.choice(["same", "same", "spelling", "old",
                                     "absent", "away", "away old", "both"])
            if s in EXCLUDED and x in ("away", "away old", "both"):
                x = "old"
            if x == "same":
                self.store(base, home, s, rows, self.raw[s])
            elif x == "spelling":
                self.store(base, home, s, rows, T.render(
                    rng, rows, rng.random() < .5))
            elif x == "old":
                self.store(base, home, s, self.older(rows))
            elif x in ("away", "both"):
                self.store(base, away, s, rows, self.raw[s])
                if x == "both":
                    self.store(base, home, s, rows, self.raw[s])
            elif x == "away old":
                self.store(base, away, s, self.older(rows))
        for _ in range(rng.randint(0, 2)):
            # made by the user
            s = self.new_stem()
            self.store(base, rng.choice(["std", "dep"]), s, self.table(s))
        for s in EXCLUDED:
            if s not in self.std and rng.random() < .2:
                self.store(base, "std", s, self.table(s))
        for f in rng.sample(sorted(OTHER), rng.randint(0, 5)):
            os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
            with open(os.path.join(base, f), "wb") as fid:
                fid.write(OTHER[f])

    def older(self, rows):
        rows = copy.deepcopy(rows)
        rng = self.rng
        x = rng.random()
        if x < .4 and len(rows) > 2:
            del rows[rng.randrange(2, len(rows))]
        elif x < .7:
            r = rng.choice(rows)
            r["comment"] = ((r["comment"] or "") + " (old)").strip()
        else:
            rows.append(C.Entry("GLOBAL:Obsolete", "text", None))
        return rows

    def store(self, base, where, stem, rows, raw=None):
        folder = base if where == "std" else os.path.join(base, "deprecated")
        if raw is None:
            raw = T.render(self.rng, rows)
        with open(os.path.join(folder, stem + ".csv"), "wb") as f:
            f.write(raw)
        g = [e for e in rows if e["name"].startswith("GLOBAL:")]
        d = [e for e in rows if e["name"].startswith("Data")]
        o = [e for e in rows if e not in g and e not in d]
        with open(os.path.join(folder, stem + ".json"), "w") as f:
            json.dump({e["name"]: {k: e[k] if k != "comment" else e[k] or ""
                                   for k in ("default", "flags", "dimensions",
                                             "type", "comment")}
                       for e in g + o + d}, f, indent=4)

    # --------------------------------------------------------------- history
    def evolve(self):
        """The web site publishes something."""
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            x = rng.choice(["change", "new", "deprecate", "restore",
                            "withdraw", "spelling", "both"])
            s = None
            if self.std or self.dep:
                s = rng.choice(sorted(self.std) + sorted(self.dep))
            if s in EXCLUDED and x in ("deprecate", "withdraw"):
                continue
            if x == "new" or s is None:
                self.offer(self.new_stem())
            elif x in ("change", "both"):
                d = self.std if s in self.std else self.dep
                d[s] = self.older(d[s])
                self.raw.pop(s, None)
            if x in ("deprecate", "both") and s in self.std and \
                    s not in EXCLUDED:
                self.dep[s] = self.std.pop(s)
            elif x == "restore" and s in self.dep:
                self.std[s] = self.dep.pop(s)
            elif x == "withdraw" and s is not None:
                # no longer offered, the local files have to stay
                self.std.pop(s, None)
                self.dep.pop(s, None)
                self.raw.pop(s, None)
            elif x == "spelling" and s is not None:
                self.raw.pop(s, None)
        self.respell()

    # ---------------------------------------------------------------- oracle
    def offered(self):
        """(stem, rows, bytes, folder, other folder) without the excluded."""
        for s, rows in self.std.items():
            if not s.startswith(("General_", "GeneralString_")):
                yield s, rows, self.raw[s], "", "deprecated/"
        for s, rows in self.dep.items():
            if not s.startswith(("General_", "GeneralString_")):
                yield s, rows, self.raw[s], "deprecated/", ""

    def pending(self, before):
        """Conventions that have to change."""
        out = set()
        for s, _, raw, here, away in self.offered():
            f = before.get(f"{here}{s}.csv")
            if f is None or W.normal(f) != W.normal(raw) or \
                    f"{away}{s}.csv" in before:
                out.add(s)
        return out

    def problem(self, before, after):
        """Why the local catalogue is not what it has to be, or None."""
        touched = set()
        for s, rows, raw, here, away in self.offered():
            for e in (".csv", ".json"):
                touched.update((here + s + e, away + s + e))
                if away + s + e in after:
                    return f"{s} is also stored as {away + s + e}"
                if here + s + e not in after:
                    return f"{here + s + e} does not exist"
            if W.normal(after[here + s + ".csv"]) != W.normal(raw):
                return f"{here + s}.csv is not what the server offers"
            try:
                got = json.loads(after[here + s + ".json"])
            except ValueError as e:
                return f"{here + s}.json {e}"
            p = T.problem(rows, got)
            if p:
                return f"{here + s}.json: {p}"
        return others(before, after, touched)


def others(before, after, ignore=()):
    """Files that must keep their content."""
    for f in sorted(set(before) | set(after)):
        if f in ignore or f.endswith(os.sep):
            continue
        if f not in after:
            return f"{f} was deleted"
        if f not in before:
            return f"{f} was created"
        if before[f] != after[f] and not same_json(f, before, after):
            return f"{f} was changed"
    return None


def same_json(f, before, after):
    """A definition may be compiled again if it means the same."""
    if not f.endswith(".json") or f[:-4] + "csv" not in before:
        return False
    try:
        a, b = json.loads(before[f]), json.loads(after[f])
    except ValueError:
        return False
    return a == b
