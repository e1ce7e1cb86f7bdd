"""Boring reference models: plain dicts and lists, no xboa code."""
import math
DOUBLES = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "by", "bz",
           "ex", "ey", "ez", "sx", "sy", "sz", "path_length", "proper_time",
           "e_dep", "charge", "mass", "local_weight"]
INTS = ["spill", "event_number", "particle_number", "station", "status", "pid"]
ALIAS = {"eventNumber": "event_number", "particleNumber": "particle_number"}
STORED = DOUBLES + INTS
C_LIGHT = 299.792458

class World(object):
    """Hits (dicts of stored variables) plus one active table of global weights."""
    def __init__(self):
        self.hits = []
        self.weights = {}
        self.default = 1.0
    def new(self, **kw):
        d = {k: 0.0 for k in DOUBLES}
        d.update({k: 0 for k in INTS})
        d["local_weight"] = 1.0
        d.update(kw)
        self.hits.append(d)
        return d
    @staticmethod
    def ident(d):
        return (d["spill"], d["event_number"], d["particle_number"])
    def get(self, d, name):
        name = ALIAS.get(name, name)
        if name == "global_weight": return self.weights.get(self.ident(d), self.default)
        if name == "weight": return d["local_weight"] * self.get(d, "global_weight")
        if name in d: return d[name]
        return DERIVED[name](d)
    def set(self, d, name, value):
        name = ALIAS.get(name, name)
        if name == "global_weight": self.weights[self.ident(d)] = value
        elif name in d: d[name] = value
        else: raise KeyError(name)

DERIVED = {
    "p": lambda d: math.sqrt(d["px"]**2 + d["py"]**2 + d["pz"]**2),
    "pt": lambda d: math.sqrt(d["px"]**2 + d["py"]**2),
    "r": lambda d: math.sqrt(d["x"]**2 + d["y"]**2),
    "r_squared": lambda d: d["x"]**2 + d["y"]**2,
    "phi": lambda d: math.atan2(d["y"], d["x"]),
    "pphi": lambda d: math.atan2(d["py"], d["px"]),
    "x'": lambda d: d["px"] / d["pz"],
    "y'": lambda d: d["py"] / d["pz"],
    "z'": lambda d: 1.0,
    "t'": lambda d: -d["energy"] / d["pz"],
    "ct'": lambda d: -d["energy"] / d["pz"],
    "r'": lambda d: math.sqrt(d["px"]**2 + d["py"]**2) / d["pz"],
    "spin": lambda d: math.sqrt(d["sx"]**2 + d["sy"]**2 + d["sz"]**2),
    "ct": lambda d: d["t"] * C_LIGHT,
    "kinetic_energy": lambda d: d["energy"] - d["mass"],
    "l_kin": lambda d: d["x"] * d["py"] - d["y"] * d["px"],
}
