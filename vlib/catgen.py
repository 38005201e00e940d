"""Random convention catalogues and installation paths."""
import copy

from . import cat as C
from . import oracle as O

NAMES = ["General", "GeneralF", "Simple", "SimpleFreeField", "Free", "Single",
         "SingleRoom", "Foo", "FooBar", "Room2", "X", "Zylia"]
VERSIONS = ["0.1", "0.9", "1.0", "1.1", "1.25", "2.0", "2.5", "9.0", "10.0",
            "10.5", "11.0"]
WORDS = ["alpha", "beta gamma", "delta", "free", "one two", "none"]
COMMENTS = ["Größe der Öffnung", "angle in °", "naïve “quotes”", "a: b, c;d",
            "first; second; third", "One. Two.", "x, y, and z", "(optional)",
            "a # b", "100 % {of} it", "from -90 to 90 (degree)", "a\\b/c",
            "with | pipe and *star*", "×10³ of µ", "some comment"]
UNITS = {"pascal": ["pascal", "pascals"],
         "newton metre": ["newton metre", "newton metres", "newton meters"],
         "radian": ["radian", "radians"]}
VARS = ["Humidity", "MicrophoneGain", "AirPressure", "TurntableAngle",
        "LoudspeakerLevel", "PostureView", "N2", "MR", "SourceDistance"]
STRVARS = ["MicrophoneNames", "Remarks", "MeasurementNames", "LabelOf"]
GLOBALS = ["Laboratory", "DatabaseURL", "ProcessingType", "DateMeasured",
           "Author2", "TypeOfRoom"]
NUM_DIMS = ["I", "M", "R", "E", "IC", "MC", "MR", "I, M", "IC, MC", "MRE",
            "IN, MN", "RC, RCM", "C", "MCE", "RM", "IE, ME", "II, MI, MR"]
STR_DIMS = ["IS", "MS", "IS, MS", "RS", "MRS", "ES, MES", "MS, ES", "S"]


def odd_path(rng):
    parts = ["in st", "a[1]b", "lib.v1", "x_y_1.0", "conventions", "GeneralFIR_",
             "[ab]", "st*r", "ünïcode", "q?", "json", "deep"]
    n = rng.randint(1, 3)
    return "/".join(rng.choice(parts) for _ in range(n))


def fits_default(dims):
    """Can the single element default be used for these dimensions?"""
    return all(d in "IC" for d in dims.split(", ")[0].replace("S", ""))


def random_entry(rng, name, kind):
    flags = rng.choice([None, None, "m", None, None, "m", "rm", "r"])
    if kind == "global":
        return [C.Entry("GLOBAL:" + name, rng.choice(WORDS + [""]),
                        rng.choice([None, "m", "rm", "r"]),
                        comment=rng.choice(["", rng.choice(COMMENTS)]))]
    if kind == "string":
        return [C.Entry(name, [""], flags, rng.choice(STR_DIMS), "string")]
    dims = rng.choice(NUM_DIMS)
    first = dims.split(", ")[0]
    if first == "C":
        default = [1, 2, 3]
    elif "C" in first and first.index("C") == 1:
        default = [rng.choice([0, 1, 0.5]), 0, rng.choice([1, 2])]
    else:
        default = rng.choice([0, 1, 20.5, -3])
    out = [C.Entry(name, default, flags, dims, "double")]
    if rng.random() < .6:
        ref = rng.choice(sorted(UNITS))
        out.append(C.Entry(name + ":Units", ref, flags))
    if rng.random() < .4:
        out.append(C.Entry(name + ":Type", rng.choice(WORDS), flags))
    if rng.random() < .2:
        out.append(C.Entry(name + ":LongName", rng.choice(WORDS), None))
    return out


def random_convention(rng, name, version, taken):
    datatype = rng.choice(["FIR", "FIR-E", "TF", "TF-E", "SOS", "Audio"])
    r = 1 if datatype in ("Audio", "FIR-E", "TF-E") else rng.choice([1, 1, 2])
    extra, glob = [], []
    for v in rng.sample(VARS, rng.randint(0, 4)):
        extra += random_entry(rng, v, "double")
    for v in rng.sample(STRVARS, rng.randint(0, 2)):
        extra += random_entry(rng, v, "string")
    for v in rng.sample(GLOBALS, rng.randint(0, 3)):
        glob += random_entry(rng, v, "global")
    if rng.random() < .4:
        extra += [C.Entry("RoomVolume", 100, None, "I, MI", "double"),
                  C.Entry("RoomVolume:Units", "cubic metre")]
    if rng.random() < .3:
        extra += [C.Entry("RoomTemperature", 300, None, "I, M", "double"),
                  C.Entry("RoomTemperature:Units", "kelvin")]
    conv = C._conv(name, version, datatype, r,
                   lview=rng.choice(["m", "o", None]),
                   sview=rng.choice(["m", "o", None]),
                   etype=rng.choice(["cartesian", "spherical",
                                     "spherical harmonics"]),
                   stype=rng.choice(["cartesian", "spherical"]),
                   extra_global=glob, extra=extra)
    if rng.random() < .3:
        # more dimension combinations or another order of the axes
        for e in conv.entries:
            if e["name"] == "ListenerPosition":
                e["dimensions"] = rng.choice(["IC, MC", "IC, MC, MCI",
                                              "IC", "IC, MC, RC"])
    C._fix_defaults(conv)
    if rng.random() < .3:
        # any order is fine except that attributes follow their variable
        rest = [e for e in conv.entries if not e["name"].startswith("GLOBAL")]
        groups = {}
        for e in rest:
            groups.setdefault(e["name"].split(":")[0], []).append(e)
        keys = sorted(groups)
        rng.shuffle(keys)
        conv.entries = [e for e in conv.entries
                        if e["name"].startswith("GLOBAL")] + \
            [e for k in keys for e in groups[k]]
    for e in conv.entries:
        if rng.random() < .15:
            e["comment"] = rng.choice(COMMENTS)
    return conv


def default_problems(conv, cat, mode="read"):
    from . import gen
    return O.issues(gen.default_model(conv), cat, mode)[0]


def random_rules(rng, cat):
    """Rules for the random entries that all default objects obey."""
    names = {}
    for c in cat.conventions:
        for e in c.entries:
            names.setdefault(e["name"], []).append((c, e))
    new = {}
    for name, where in sorted(names.items()):
        if name in cat.rules or ":" not in name and rng.random() < .5:
            continue
        base = name.split(":")[0].removeprefix("GLOBAL")
        if base not in VARS + STRVARS + [""]:
            continue
        if name.startswith("GLOBAL:") and name[7:] not in GLOBALS:
            continue
        rule = {"value": None}
        defaults = sorted({str(e["default"]) for _, e in where})
        is_attr = where[0][1]["type"] == "attribute"
        if is_attr and name.endswith(":Units"):
            if len(defaults) == 1 and rng.random() < .7:
                rule["value"] = defaults
        elif is_attr and rng.random() < .6 and "" not in defaults:
            rule["value"] = sorted(set(
                defaults + rng.sample(WORDS, rng.randint(0, 3))))
        # entries that always come with this one
        common = None
        for c, _ in where:
            s = {x["name"] for x in c.entries}
            common = s if common is None else common & s
        common = sorted(common - {name})
        if rng.random() < .6:
            sib = [x for x in common if x.split(":")[0] == base and base]
            pool = sib if sib and rng.random() < .7 else common
            rule["general"] = rng.sample(pool, min(len(pool),
                                                   rng.randint(1, 2)))
        if is_attr and not name.endswith(":Units") and rng.random() < .5:
            spec = {}
            for v in rng.sample(rule["value"] or WORDS,
                                min(2, len(rule["value"] or WORDS))):
                items = {}
                for dep in rng.sample(common, min(len(common),
                                                  rng.randint(1, 2))):
                    es = [e for c, _ in where for e in c.entries
                          if e["name"] == dep]
                    vals = sorted({str(e["default"]) for e in es})
                    if es[0]["type"] == "attribute" and rng.random() < .6 \
                            and "" not in vals and dep.split(":")[-1] not in (
                                "SOFAConventions", "Version", "APIName",
                                "SOFAConventionsVersion", "APIVersion"):
                        if dep.endswith("Units"):
                            items[dep] = vals if len(vals) == 1 else None
                        else:
                            items[dep] = vals
                    else:
                        items[dep] = None
                if rng.random() < .4:
                    d = rng.choice("MRECN")
                    sizes = {1, 2, 3, rng.randint(1, 6)}
                    items["_dimensions"] = {d: {
                        "value": sorted(sizes), "value_str": str(sizes)}}
                spec[v.lower()] = items
            rule["specific"] = spec
        if rule["value"] is not None or len(rule) > 1:
            new[name] = rule
    for name, rule in new.items():
        cat.rules[name] = rule
        if any(default_problems(c, cat) for c in cat.conventions):
            del cat.rules[name]


def random_upgrade(rng, cat, target, name=None):
    """An older version of ``target`` and the rules that upgrade it."""
    if float(target.version) < 1 or target not in cat.conventions:
        return None
    old = copy.deepcopy(target)
    old.deprecated = True
    rules = {"move": {}, "remove": [],
             "message": rng.choice([None, "have a look at the data"])}
    if name is not None:
        old.name = name
    elif rng.random() < .5:
        old.name = target.name + rng.choice(["Old", "Legacy", "2"])
    old.version = rng.choice([v for v in ["0.3", "0.5", "1.0", "1.35"]
                              if float(v) < float(target.version)] or ["0.3"])
    if cat.get(old.name, old.version) is not None:
        return None
    byname = {e["name"]: e for e in old.entries}
    byname["GLOBAL:SOFAConventions"]["default"] = old.name
    byname["GLOBAL:SOFAConventionsVersion"]["default"] = old.version
    if rng.random() < .3:
        byname["GLOBAL:Version"]["default"] = "1.0"
    movable = [e for e in old.entries
               if e["type"] != "attribute" and e["name"] in VARS + STRVARS
               or e["name"].startswith("Data.IR")
               or e["name"] in ("ListenerView", "SourceView")]
    for e in rng.sample(movable, min(len(movable), rng.randint(0, 3))):
        name = e["name"]
        move = {"target": name, "moveaxis": None,
                "deprecated_dimensions": rng.choice([None, ["M"]])}
        first = e["dimensions"].split(", ")
        if e["type"] == "double" and all(len(d) == len(first[0])
                                         for d in first) and \
                len(first[0]) > 1 and rng.random() < .8 and \
                (name.startswith("Data") or
                 all(x in "IM" for d in first for x in d)
                 or not any(x in "CN" for x in first[0])):
            # old data has the axis at another position
            n = len(first[0])
            a, b = rng.sample(range(n), 2)
            dims = []
            for d in first:
                d = list(d)
                d.insert(a, d.pop(b))
                dims.append("".join(d))
            if not (name.startswith("Data") and dims[0][0] != "m"):
                e["dimensions"] = ", ".join(dims)
                move["moveaxis"] = [a, b]
        elif name.startswith("Data") and len(first) == 1 and \
                len(first[0]) == 3 and rng.random() < .5:
            pass
        if not name.startswith("Data") and rng.random() < .6 and \
                name not in ("ListenerView", "SourceView"):
            new = name + "Old"
            old_name = e["name"]
            e["name"] = new
            for x in old.entries:
                if x["name"].startswith(old_name + ":"):
                    att = x["name"].split(":")[1]
                    x["name"] = f"{new}:{att}"
                    rules["move"][f"{new}:{att}"] = {
                        "target": f"{old_name}:{att}", "moveaxis": None,
                        "deprecated_dimensions": None}
            rules["move"][new] = move
        elif move["moveaxis"] or rng.random() < .5:
            rules["move"][name] = move
    for e in old.entries:
        # global attributes with another name
        if e["name"].startswith("GLOBAL:") and e["name"][7:] in GLOBALS and \
                rng.random() < .4:
            rules["move"][e["name"] + "Old"] = {
                "target": e["name"], "moveaxis": None,
                "deprecated_dimensions": None}
            e["name"] += "Old"
    # entries that exist only in the old version
    if rng.random() < .6:
        for e in random_entry(rng, "ObsoleteThing", "double"):
            old.entries.append(e)
            rules["remove"].append(e["name"])
    if rng.random() < .5:
        for e in random_entry(rng, "ObsoleteText", "global"):
            e["flags"] = rng.choice([None, "m"])
            old.entries.append(e)
            rules["remove"].append(e["name"])
    # entries that exist only in the new version
    gone = [e for e in old.entries if e["name"].startswith("GLOBAL:") and
            e["name"][7:] in GLOBALS]
    for e in gone:
        if rng.random() < .5:
            old.entries.remove(e)
    old._api = None
    if default_problems(old, cat):
        return None
    other = None
    if rng.random() < .3:
        c = [c for c in cat.conventions if c.name == target.name
             and c.version != target.version]
        if c:
            other = rng.choice(c)
    targets = [f"{target.name}_{target.version}"]
    if other is not None and not rules["move"] and not rules["remove"] and \
            {e["name"] for e in other.entries} == \
            {e["name"] for e in target.entries} and \
            [e["dimensions"] for e in other.entries] == \
            [e["dimensions"] for e in target.entries]:
        targets.append(f"{other.name}_{other.version}")
    up = cat.upgrade.setdefault(old.name, {"from_to": []})
    tid = str(len(up["from_to"]))
    if any(old.version in f[0] for f in up["from_to"]):
        return None
    versions = [old.version]
    if rng.random() < .3:
        # another version with the same rules
        twin = copy.deepcopy(old)
        twin.version = rng.choice(["0.2", "0.7", "0.8"])
        twin._api = None
        for e in twin.entries:
            if e["name"] == "GLOBAL:SOFAConventionsVersion":
                e["default"] = twin.version
        if cat.get(twin.name, twin.version) is None and not any(
                twin.version in f[0] for f in up["from_to"]):
            cat.conventions.append(twin)
            versions.append(twin.version)
            rng.shuffle(versions)
    if rng.random() < .5:
        # rules for versions that contain the text of other versions
        for c in cat.conventions:
            if c.name == old.name and not any(c.version in f[0]
                                              for f in up["from_to"]):
                v = rng.choice(["1", "2"]) + c.version
                if cat.get(c.name, v) is None and v not in versions:
                    versions.append(v)
    up["from_to"].append([versions, targets, tid])
    if rng.random() < .3:
        rng.shuffle(up["from_to"])
    up[tid] = rules
    if old.name != target.name and rng.random() < .8:
        cat.deprecations["GLOBAL:SOFAConventions"][old.name] = target.name
    cat.conventions.append(old)
    return old.name


def random_catalogue(rng):
    full = C.fixed()
    cat = C.Catalogue()
    cat.version = rng.choice(["2.1", "1.0", "3.0"])
    cat.rules = full.rules
    cat.aliases = full.aliases
    for ref, al in UNITS.items():
        for a in al:
            cat.aliases[a] = ref
    keep = rng.sample(full.conventions, rng.randint(2, 6))
    # deprecated conventions stay with the conventions they depend on
    names = {c.name for c in keep}
    for c in list(keep):
        for f in full.upgrade.get(c.name, {}).get("from_to", []):
            names.update(t.split("_")[0] for t in f[1])
    cat.conventions = [c for c in full.conventions if c.name in names]
    cat.deprecations["GLOBAL:SOFAConventions"] = {
        k: v for k, v in full.deprecations["GLOBAL:SOFAConventions"].items()
        if k in names}
    cat.upgrade = {k: v for k, v in full.upgrade.items() if k in names}
    for name in rng.sample(NAMES, rng.randint(2, 4)):
        for version in rng.sample(VERSIONS, rng.randint(1, 4)):
            conv = random_convention(rng, name, version, names)
            conv.deprecated = rng.random() < .2
            if not default_problems(conv, cat):
                cat.conventions.append(conv)
    random_rules(rng, cat)
    cand = [c for c in cat.conventions if c.name in NAMES
            and float(c.version) >= 1 and not c.deprecated]
    rng.shuffle(cand)
    for target in cand[:3]:
        name = random_upgrade(rng, cat, target)
        if name is not None and rng.random() < .6:
            # other versions of it
            random_upgrade(rng, cat, rng.choice([target] + cand), name)
    rng.shuffle(cat.conventions)
    return cat
