"""Convention catalogues for the checks.

The repository ships its convention definitions as a git submodule that is not
part of the sandbox.  This module rebuilds an AES69 style catalogue from
scratch: a fixed part modelled after the public SOFA conventions and a random
part (made-up conventions, rules and upgrade rules) so that the checks are not
tied to a handful of names.

Nothing in here imports or calls sofar.
"""
import copy
import json
import os

COORD_MIN = ["cartesian", "spherical"]
COORD_FULL = ["cartesian", "spherical", "spherical harmonics"]
UNITS_OF = {"cartesian": "metre",
            "spherical": "degree, degree, metre",
            "spherical harmonics": "degree, degree, metre"}


class Entry(dict):
    """One row of a convention (name in netCDF form, e.g. ``Data.IR``)."""

    def __init__(self, name, default, flags=None, dims=None, type_="attribute",
                 comment=""):
        super().__init__(name=name, default=default, flags=flags or None,
                         dimensions=dims or None, type=type_, comment=comment)


class Convention:
    def __init__(self, name, version, entries, deprecated=False):
        self.name, self.version = name, version
        self.entries = entries
        self.deprecated = deprecated
        self._api = None

    @property
    def stem(self):
        return f"{self.name}_{self.version}"

    def api(self):
        """dict keyed by the python names (':' and '.' become '_').

        Cached: reset ``_api`` after changing the entries.
        """
        if self._api is None:
            self._api = {pyname(e["name"]): {k: e[k] for k in (
                "default", "flags", "dimensions", "type", "comment")}
                for e in self.entries}
        return self._api

    def json_dict(self):
        return {e["name"]: {k: e[k] for k in (
            "default", "flags", "dimensions", "type", "comment")}
            for e in self.entries}

    def csv_text(self):
        lines = ["Name\tDefault\tFlags\tDimensions\tType\tComment"]
        for e in self.entries:
            lines.append("\t".join([
                e["name"], csv_cell(e), e["flags"] or "",
                e["dimensions"] or "", e["type"], e["comment"] or ""]))
        return "\n".join(lines) + "\n"


def csv_cell(e):
    d = e["default"]
    if e["type"] == "string" and isinstance(d, list):
        return "{''}"
    if isinstance(d, list):
        if d and isinstance(d[0], list):
            if d and isinstance(d[0][0], list):     # SOS
                if len(d[0]) == 2:
                    return "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);"
                return "permute([0 0 0 1 0 0], [3 1 2]);"
            return "[" + "; ".join(" ".join(num(x) for x in r)
                                   for r in d) + "]"
        return "[" + " ".join(num(x) for x in d) + "]"
    if isinstance(d, str):
        return d
    return num(d)


def num(x):
    if isinstance(x, int):
        return str(x)
    r = repr(float(x))
    if "." not in r:                      # 1e-07 -> 1.0e-07
        m, _, ex = r.partition("e")
        r = f"{m}.0e{ex}" if ex else m + ".0"
    return r


def pyname(name):
    return name.replace(":", "_").replace(".", "_")


class Catalogue:
    def __init__(self):
        self.conventions = []
        self.rules = {}
        self.aliases = {}
        self.deprecations = {"GLOBAL:SOFAConventions": {}}
        self.upgrade = {}
        self.version = "2.1"

    def get(self, name, version):
        for c in self.conventions:
            if c.name == name and c.version == version:
                return c
        return None

    def versions(self, name):
        return [c.version for c in self.conventions if c.name == name]

    def latest(self, name):
        return max(self.versions(name), key=float)

    def names(self):
        return sorted({c.name for c in self.conventions})

    def write(self, dest, csv=True):
        """Write as folder ``dest`` (i.e. ``.../sofar/sofa_conventions``)."""
        conv = os.path.join(dest, "conventions")
        os.makedirs(os.path.join(conv, "deprecated"), exist_ok=True)
        os.makedirs(os.path.join(dest, "rules"), exist_ok=True)
        for c in self.conventions:
            base = os.path.join(conv, "deprecated") if c.deprecated else conv
            with open(os.path.join(base, c.stem + ".json"), "w") as f:
                json.dump(c.json_dict(), f, indent=1)
            if csv:
                with open(os.path.join(base, c.stem + ".csv"), "wb") as f:
                    f.write(c.csv_text().encode("windows-1252"))
        for name, data in (("rules", self.rules),
                           ("unit_aliases", self.aliases),
                           ("deprecations", self.deprecations),
                           ("upgrade", self.upgrade)):
            with open(os.path.join(dest, "rules", name + ".json"), "w") as f:
                json.dump(data, f)
        with open(os.path.join(dest, "VERSION"), "w") as f:
            f.write(self.version + "\n")


# --------------------------------------------------------------------- fixed
def _globals(name, version, datatype, roomtype="free field", extra=()):
    A = Entry
    e = [
        A("GLOBAL:Conventions", "SOFA", "rm"),
        A("GLOBAL:Version", "2.1", "rm"),
        A("GLOBAL:SOFAConventions", name, "rm", comment="made for " + name),
        A("GLOBAL:SOFAConventionsVersion", version, "rm"),
        A("GLOBAL:APIName", "", "rm"),
        A("GLOBAL:APIVersion", "", "rm"),
        A("GLOBAL:ApplicationName", ""),
        A("GLOBAL:ApplicationVersion", ""),
        A("GLOBAL:AuthorContact", "", "m"),
        A("GLOBAL:Comment", "", "m"),
        A("GLOBAL:DataType", datatype, "rm", comment="shall be " + datatype),
        A("GLOBAL:History", ""),
        A("GLOBAL:License",
          "No license provided, ask the author for permission", "m"),
        A("GLOBAL:Organization", "", "m"),
        A("GLOBAL:References", ""),
        A("GLOBAL:RoomType", roomtype, "m"),
        A("GLOBAL:Origin", ""),
        A("GLOBAL:DateCreated", "", "m"),
        A("GLOBAL:DateModified", "", "m"),
        A("GLOBAL:Title", "", "m"),
    ]
    return e + list(extra)


def _pos(obj, default, flags, dims, type_="cartesian", units=None):
    units = units or UNITS_OF[type_]
    return [Entry(obj, default, flags, dims, "double"),
            Entry(obj + ":Type", type_, flags),
            Entry(obj + ":Units", units, flags)]


def _view(obj, flags, dims_view, dims_up):
    return [Entry(obj + "View", [1, 0, 0], flags, dims_view, "double"),
            Entry(obj + "View:Type", "cartesian", flags),
            Entry(obj + "View:Units", "metre", flags),
            Entry(obj + "Up", [0, 0, 1], flags, dims_up, "double")]


def _data(datatype, r=1, e=1, delay=True, n=1):
    D = Entry
    if datatype in ("FIR",):
        out = [D("Data.IR", [0] * r if r > 1 else 0, "m", "mRn", "double"),
               D("Data.SamplingRate", 48000, "m", "I", "double"),
               D("Data.SamplingRate:Units", "hertz", "m")]
        if delay:
            out.append(D("Data.Delay", [0] * r, "m", "IR, MR", "double"))
        return out
    if datatype in ("FIR-E", "FIRE"):
        return [D("Data.IR", 0, "m", "mRnE", "double"),
                D("Data.SamplingRate", 48000, "m", "I", "double"),
                D("Data.SamplingRate:Units", "hertz", "m"),
                D("Data.Delay", 0, "m", "IRE, MRE", "double")]
    if datatype in ("TF", "TF-E", "TFE"):
        dims = "mRn" if datatype == "TF" else "mRnE"
        return [D("N", 0, "m", "N", "double"),
                D("N:LongName", "frequency"),
                D("N:Units", "hertz", "m"),
                D("Data.Real", [0] * r if r > 1 else 0, "m", dims, "double"),
                D("Data.Imag", [0] * r if r > 1 else 0, "m",
                  dims.upper(), "double")]
    if datatype == "SOS":
        sos = [[[0, 0, 0, 1, 0, 0] for _ in range(r)]]
        return [D("Data.SOS", sos, "m", "mRn", "double"),
                D("Data.SamplingRate", 48000, "m", "I", "double"),
                D("Data.SamplingRate:Units", "hertz", "m"),
                D("Data.Delay", [0] * r, "m", "IR, MR", "double")]
    if datatype == "Audio":
        return [D("Data.Receiver", 0, "m", "mRn", "double"),
                D("Data.SamplingRate", 48000, "m", "I", "double"),
                D("Data.SamplingRate:Units", "hertz", "m")]
    raise ValueError(datatype)


def _conv(name, version, datatype, r=1, deprecated=False, room="free field",
          extra_global=(), extra=(), lview="m", sview="m", rtype="cartesian",
          etype="cartesian", stype="spherical", m_dim=None):
    rp = [[0, 0.09, 0], [0, -0.09, 0]] if r == 2 else [0, 0, 0]
    ent = _globals(name, version, datatype, room, extra_global)
    ent += _pos("ListenerPosition", [0, 0, 0], "m", "IC, MC")
    if lview:
        ent += _view("Listener", lview if lview != "o" else None,
                     "IC, MC", "IC, MC")
    ent += _pos("ReceiverPosition", rp, "m", "rCI, rCM", rtype)
    if stype == "spherical":
        ent += _pos("SourcePosition", [0, 0, 1], "m", "IC, MC", "spherical")
    else:
        ent += _pos("SourcePosition", [0, 0, 1], "m", "IC, MC", stype)
    if sview:
        ent += _view("Source", sview if sview != "o" else None,
                     "IC, MC", "IC, MC")
    ent += _pos("EmitterPosition", [0, 0, 0], "m", "eCI, eCM", etype)
    ent += list(extra)
    ent += _data(datatype, r)
    return Convention(name, version, ent, deprecated)


def _fix_defaults(conv):
    """Data defaults that have the right shape for the receiver count."""
    r = 1
    for e in conv.entries:
        if e["name"] == "ReceiverPosition":
            d = e["default"]
            r = len(d) if isinstance(d[0], list) else 1
    for e in conv.entries:
        if e["name"] in ("Data.Receiver", "Data.IR", "Data.Real", "Data.Imag",
                         "Data.Delay"):
            # a flat list [0 0] is loaded as one measurement, two receivers
            e["default"] = [0] * r if r > 1 else 0
    return conv


def fixed():
    """The fixed catalogue."""
    A = Entry
    c = []
    hrtf_global = [A("GLOBAL:DatabaseName", "", "m"),
                   A("GLOBAL:ListenerShortName", "", "m")]
    c.append(_conv("GeneralFIR", "1.0", "FIR", lview=None, sview=None,
                   extra_global=[A("GLOBAL:ListenerDescription", "")]))
    c.append(_conv("GeneralFIR-E", "2.0", "FIR-E", lview=None, sview=None))
    c.append(_conv("GeneralTF", "1.0", "TF", lview=None, sview=None))
    c.append(_conv("GeneralTF", "2.0", "TF", lview=None, sview=None))
    c.append(_conv("GeneralTF-E", "1.0", "TF-E", lview=None, sview=None))
    c.append(_conv("GeneralSOS", "1.0", "SOS", lview=None, sview=None))
    c.append(_conv("SimpleFreeFieldHRIR", "1.0", "FIR", 2, lview="m",
                   sview="o", extra_global=hrtf_global))
    c.append(_conv("SimpleFreeFieldHRTF", "1.0", "TF", 2, lview="m",
                   sview="o", extra_global=hrtf_global))
    c.append(_conv("SimpleFreeFieldHRSOS", "1.0", "SOS", 2, lview="m",
                   sview="o", extra_global=hrtf_global))
    c.append(_conv("FreeFieldHRIR", "1.0", "FIR-E", 2, lview="m", sview="o",
                   etype="spherical harmonics", extra_global=hrtf_global))
    c.append(_conv("FreeFieldHRTF", "1.0", "TF-E", 2, lview="m", sview="o",
                   etype="spherical harmonics", extra_global=hrtf_global))
    c.append(_conv(
        "FreeFieldDirectivityTF", "1.1", "TF", lview="m", sview="m",
        extra=[A("EmitterDescriptions", [""], None, "MS, ES", "string"),
               A("SourceTuningFrequency", 440, None, "I, M", "double"),
               A("SourceTuningFrequency:Units", "hertz")],
        extra_global=[A("GLOBAL:InstrumentType", "", "m"),
                      A("GLOBAL:InstrumentManufacturer", "", "m"),
                      A("GLOBAL:Musician", "", "m"),
                      A("GLOBAL:EmitterDescription", "")]))
    c.append(_conv(
        "FreeFieldDirectivityTF", "1.0", "TF", deprecated=True, lview="m",
        sview="m",
        extra=[A("EmitterDescriptions", [""], None, "MS, ES", "string"),
               A("SourceTuningFrequency", 440, None, "I, M", "double"),
               A("SourceTuningFrequency:Units", "hertz"),
               A("EmitterMidPoint", [0, 0, 0], None, "IC, MC", "double")],
        extra_global=[A("GLOBAL:InstrumentType", "", "m"),
                      A("GLOBAL:InstrumentManufacturer", "", "m"),
                      A("GLOBAL:Musician", "", "m")]))
    hp = [A("SourceManufacturer", [""], None, "IS, MS", "string"),
          A("SourceModel", [""], None, "IS, MS", "string"),
          A("SourceURI", [""], None, "IS, MS", "string"),
          A("ReceiverDescriptions", [""], None, "IS, RS", "string"),
          A("EmitterDescriptions", [""], None, "IS, ES", "string"),
          A("MeasurementDate", 0, None, "I, M", "double")]
    hp_gl = hrtf_global + [A("GLOBAL:ListenerDescription", "", "m"),
                           A("GLOBAL:SourceDescription", "", "m")]
    c.append(_conv("SimpleHeadphoneIR", "1.0", "FIR", 2, lview="o",
                   sview="o", extra=hp, extra_global=hp_gl))
    c.append(_conv("SimpleHeadphoneIR", "0.2", "FIR", 2, deprecated=True,
                   lview="o", sview="o", extra=copy.deepcopy(hp),
                   extra_global=hp_gl))
    room = [A("RoomTemperature", 0, None, "I, M", "double"),
            A("RoomTemperature:Units", "kelvin"),
            A("RoomVolume", 0, None, "I, MI", "double"),
            A("RoomVolume:Units", "cubic metre"),
            A("RoomCornerA", [0, 0, 0], None, "IC, MC", "double"),
            A("RoomCornerB", [1, 2, 3], None, "IC, MC", "double"),
            A("RoomCorners", 0, None, "I", "double"),
            A("RoomCorners:Type", "cartesian"),
            A("RoomCorners:Units", "metre"),
            A("ReceiverDescriptions", [""], None, "IS, RS", "string")]
    room_gl = [A("GLOBAL:DatabaseName", "", "m"),
               A("GLOBAL:RoomDescription", ""),
               A("GLOBAL:RoomShortName", ""),
               A("GLOBAL:RoomLocation", ""),
               A("GLOBAL:RoomGeometry", "")]
    c.append(_conv("SingleRoomSRIR", "1.0", "FIR", room="shoebox", extra=room,
                   extra_global=room_gl))
    c.append(_conv("SingleRoomMIMOSRIR", "1.0", "FIR-E", room="shoebox",
                   extra=copy.deepcopy(room), extra_global=room_gl))
    c.append(_conv("AnnotatedReceiverAudio", "0.2", "Audio", lview="m",
                   sview=None, extra_global=[A("GLOBAL:DatabaseName", "",
                                               "m")]))
    # deprecated conventions
    c.append(_conv("SimpleFreeFieldHRIR", "0.4", "FIR", 2, deprecated=True,
                   lview="m", sview=None, extra_global=hrtf_global))
    for v in ("0.4", "1.0"):
        c.append(_conv("SimpleFreeFieldTF", v, "TF", 2, deprecated=True,
                       lview="m", sview="o", extra_global=hrtf_global))
    c.append(_conv("SimpleFreeFieldSOS", "1.0", "SOS", 2, deprecated=True,
                   lview="m", sview="o", extra_global=hrtf_global))
    for v in ("0.2", "0.3"):
        c.append(_conv("SingleRoomDRIR", v, "FIR", deprecated=True,
                       room="reverberant",
                       extra_global=[
                           A("GLOBAL:DatabaseName", "", "m"),
                           A("GLOBAL:RoomDescription", "", "m")]))
    ms = _conv("MultiSpeakerBRIR", "0.3", "FIRE", 2, deprecated=True,
               room="reverberant",
               extra_global=[A("GLOBAL:DatabaseName", "", "m"),
                             A("GLOBAL:RoomDescription", "", "m")])
    for e in ms.entries:
        if e["name"] == "Data.IR":
            e["dimensions"] = "mREn"
    c.append(ms)
    gf = _conv("GeneralFIRE", "1.0", "FIRE", deprecated=True, lview=None,
               sview=None)
    for e in gf.entries:
        if e["name"] == "Data.IR":
            e["dimensions"] = "mREn"
    c.append(gf)
    c.append(_conv("SingleTrackedAudio", "0.1", "FIR", deprecated=True,
                   lview="m", sview=None))
    for conv in c:
        _fix_defaults(conv)

    cat = Catalogue()
    cat.conventions = c
    cat.aliases = {}
    for ref, al in {
            "metre": ["metre", "metres", "meter", "meters"],
            "degree": ["degree", "degrees"],
            "second": ["second", "seconds"],
            "hertz": ["hertz"], "kelvin": ["kelvin"],
            "cubic metre": ["cubic metre", "cubic metres", "cubic meter",
                            "cubic meters"]}.items():
        for a in al:
            cat.aliases[a] = ref
    cat.rules = _rules()
    cat.deprecations["GLOBAL:SOFAConventions"] = {
        "SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
        "SimpleFreeFieldSOS": "SimpleFreeFieldHRSOS",
        "SingleRoomDRIR": "SingleRoomSRIR",
        "MultiSpeakerBRIR": "SingleRoomMIMOSRIR",
        "GeneralFIRE": "GeneralFIR-E",
        "SingleTrackedAudio": "AnnotatedReceiverAudio"}
    none = {"move": {}, "remove": [], "message": None}
    mv = {"move": {"Data.IR": {"target": "Data.IR", "moveaxis": [2, 3],
                               "deprecated_dimensions": None}},
          "remove": [], "message": None}
    cat.upgrade = {
        "SimpleFreeFieldTF": {
            "from_to": [[["0.4", "1.0"], ["SimpleFreeFieldHRTF_1.0"], "0"]],
            "0": none},
        "SimpleFreeFieldSOS": {
            "from_to": [[["1.0"], ["SimpleFreeFieldHRSOS_1.0"], "0"]],
            "0": none},
        "SimpleFreeFieldHRIR": {
            "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0"], "0"]],
            "0": {"move": {}, "remove": [],
                  "message": "Consider to add the optional data 'SourceUp'"}},
        "SingleRoomDRIR": {
            "from_to": [[["0.2", "0.3"], ["SingleRoomSRIR_1.0"], "0"]],
            "0": none},
        "MultiSpeakerBRIR": {
            "from_to": [[["0.3"], ["SingleRoomMIMOSRIR_1.0"], "0"]],
            "0": mv},
        "GeneralFIRE": {
            "from_to": [[["1.0"], ["GeneralFIR-E_2.0"], "0"]],
            "0": mv},
        "SimpleHeadphoneIR": {
            "from_to": [[["0.1", "0.2"], ["SimpleHeadphoneIR_1.0"], "0"]],
            "0": none},
        "FreeFieldDirectivityTF": {
            "from_to": [[["1.0"], ["FreeFieldDirectivityTF_1.1"], "0"]],
            "0": {"move": {
                "SourceTuningFrequency": {
                    "target": "SourceTuningFrequency", "moveaxis": None,
                    "deprecated_dimensions": ["M"]}},
                "remove": ["EmitterMidPoint"],
                "message": "Optional dependencies might have to be added"}},
    }
    return cat


def _rules():
    sh = {"value": [(n + 1) ** 2 for n in range(200)],
          "value_str": "(N+1)**2 where N is the spherical harmonics order"}
    sos = {"value": [6 * (n + 1) for n in range(1000)],
           "value_str": "an integer multiple of 6 greater 0"}
    rules = {
        "GLOBAL:DataType": {
            "value": ["FIR", "FIR-E", "FIRE", "TF", "TF-E", "TFE", "SOS",
                      "Audio"],
            "specific": {
                "FIR": {"Data.IR": None, "Data.Delay": None,
                        "Data.SamplingRate": None,
                        "Data.SamplingRate:Units": ["hertz"]},
                "FIR-E": {"Data.IR": None, "Data.Delay": None,
                          "Data.SamplingRate": None,
                          "Data.SamplingRate:Units": ["hertz"]},
                "FIRE": {"Data.IR": None, "Data.Delay": None,
                         "Data.SamplingRate": None,
                         "Data.SamplingRate:Units": ["hertz"]},
                "TF": {"Data.Real": None, "Data.Imag": None, "N": None,
                       "N:Units": ["hertz"]},
                "TF-E": {"Data.Real": None, "Data.Imag": None, "N": None,
                         "N:Units": ["hertz"]},
                "SOS": {"Data.SOS": None, "Data.Delay": None,
                        "Data.SamplingRate": None,
                        "Data.SamplingRate:Units": ["hertz"],
                        "_dimensions": {"N": sos}}}},
        "GLOBAL:RoomType": {
            "value": ["free field", "reverberant", "shoebox", "dae"],
            "specific": {
                "reverberant": {"GLOBAL:RoomDescription": None},
                "shoebox": {"RoomCornerA": None, "RoomCornerB": None},
                "dae": {"GLOBAL:RoomGeometry": None}}},
        "GLOBAL:SOFAConventions": {
            "value": None,
            "specific": {
                "GeneralFIR": {"GLOBAL:DataType": ["FIR"]},
                "GeneralTF": {"GLOBAL:DataType": ["TF"]},
                "GeneralSOS": {"GLOBAL:DataType": ["SOS"]},
                "SimpleFreeFieldHRIR": {
                    "GLOBAL:DataType": ["FIR"],
                    "GLOBAL:RoomType": ["free field"],
                    "EmitterPosition:Type": ["cartesian", "spherical"],
                    "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
                "SimpleFreeFieldHRTF": {
                    "GLOBAL:DataType": ["TF"],
                    "GLOBAL:RoomType": ["free field"],
                    "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
                "FreeFieldHRIR": {
                    "GLOBAL:DataType": ["FIR-E"],
                    "EmitterPosition:Type": ["spherical harmonics"]},
                "SingleRoomSRIR": {"GLOBAL:DataType": ["FIR"]},
                "SingleRoomMIMOSRIR": {"GLOBAL:DataType": ["FIR-E"]}}},
        "RoomTemperature": {"value": None,
                            "general": ["RoomTemperature:Units"]},
        "RoomTemperature:Units": {"value": ["kelvin"],
                                  "general": ["RoomTemperature"]},
        "RoomVolume": {"value": None, "general": ["RoomVolume:Units"]},
        "RoomVolume:Units": {"value": ["cubic metre"],
                             "general": ["RoomVolume"]},
        "RoomCornerA": {"value": None, "general": [
            "RoomCornerB", "RoomCorners:Type", "RoomCorners:Units"]},
        "RoomCornerB": {"value": None, "general": [
            "RoomCornerA", "RoomCorners:Type", "RoomCorners:Units"]},
        "RoomCorners:Type": {
            "value": COORD_MIN,
            "specific": {t: {"RoomCorners:Units": [UNITS_OF[t]]}
                         for t in COORD_MIN}},
    }
    for obj in ("Listener", "Source", "Receiver", "Emitter"):
        full = obj in ("Receiver", "Emitter")
        coords = COORD_FULL if full else COORD_MIN
        dim = obj[0]
        for what in ("Position", "View"):
            base = obj + what
            allowed = coords if what == "Position" else COORD_MIN
            rules[base] = {"value": None,
                           "general": [base + ":Type", base + ":Units"]}
            spec = {}
            for t in allowed:
                spec[t] = {base + ":Units": [UNITS_OF[t]]}
                if t == "spherical harmonics":
                    spec[t]["_dimensions"] = {dim: sh}
            rules[base + ":Type"] = {"value": allowed, "general": [base],
                                     "specific": spec}
        rules[obj + "Up"] = {"value": None, "general": [obj + "View"]}
        rules[obj + "View"]["general"].append(obj + "Up")
    return rules
