"""Stand-ins for the parts of ROOT and MAUS (neither of which is needed to run xboa) that hold spills: plain
objects with the accessors of the MAUS data structure.  Reading an entry ends the life of the entry read before into
the same data object, as in ROOT."""
import sys, types

class Vec(object):
    def __init__(self, v): self.v = tuple(v)
    def x(self): return self.v[0]
    def y(self): return self.v[1]
    def z(self): return self.v[2]
    X, Y, Z = x, y, z
class Item(object):
    """Get<Name>() for every entry of a dictionary"""
    def __init__(self, table, owner):
        self._t, self._o = table, owner
    def __getattr__(self, name):
        if name.startswith("_"): raise AttributeError(name)
        key = name[3:] if name.startswith("Get") else name
        if key not in self._t: raise AttributeError(name)
        return lambda *a: self._value(key)
    def _value(self, key):
        if self._o.dead: raise ReferenceError("spill used after the next one was read")
        return self._t[key]
class Life(object):
    dead = False
def three(d, p, names="xyz"): return Vec([d[p + k] for k in names])
def virtual(d, o):
    return Item({"Position": three(d, ""), "Momentum": three(d, "p"), "BField": three(d, "b"), "EField": three(d, "e"), "ParticleId": d["pid"], "StationId": d["station"],
                 "TrackId": d["particle_number"], "Time": d["t"], "Mass": d["mass"], "Charge": d["charge"], "ProperTime": d["proper_time"], "PathLength": d["path_length"]}, o)
def primary(d, o):
    return Item({"Position": three(d, ""), "Momentum": three(d, "p"), "ParticleId": d["pid"], "Energy": d["energy"], "Time": d["t"], "RandomSeed": 9}, o)
def step(d, o):
    return Item({"Position": three(d, ""), "Momentum": three(d, "p"), "BField": three(d, "b"), "EField": three(d, "e"), "Spin": three(d, "s"), "Time": d["t"],
                 "ProperTime": d["proper_time"], "PathLength": d["path_length"], "EnergyDeposited": 0.0}, o)
def track(t, o):
    return Item({"ParticleId": t["pid"], "TrackId": t["id"], "Steps": [step(d, o) for d in t["steps"]]}, o)
def times(ts, name, o): return [Item({name: t}, o) for t in ts]
def mc_event(e, o):
    return Item({"Primary": primary(e["primary"], o), "VirtualHits": [virtual(d, o) for d in e["virtual"]], "Tracks": [track(t, o) for t in e["tracks"]]}, o)
def recon_event(e, o):
    tracks = [Item({"P_value": t["p_value"], "scifitrackpoints": [Item({"tracker": p["tracker"], "station": p["station"], "plane": p["plane"], "pos": three(p, ""), "mom": three(p, "p")}, o)
                                                                  for p in t["points"]]}, o) for t in e["tracks"]]
    tof = e["tof"]
    def pair(kind, leaf): return Item({"TOF0" + kind: times(tof[leaf][0], leaf, o), "TOF1" + kind: times(tof[leaf][1], leaf, o)}, o)
    return Item({"SciFiEvent": Item({"scifitracks": tracks}, o),
                 "TOFEvent": Item({"TOFEventSpacePoint": pair("SpacePointArray", "Time"), "TOFEventSlabHit": pair("SlabHitArray", "RawTime"),
                                   "TOFEventDigit": pair("DigitArray", "LeadingTime")}, o)}, o)
class Data(object):
    def __init__(self): self.spill, self.life = None, None
    def GetSpill(self): return self.spill
class Tree(object):
    """A list of {"number", "mc", "recon"}"""
    def __init__(self, spills): self.spills, self.data, self.closed, self.reads = spills, None, False, []
    def GetEntries(self): return len(self.spills)
    def SetBranchAddress(self, name, data):
        if name != "data" or not isinstance(data, Data): raise TypeError(name)
        self.data = data
    def GetEntry(self, i):
        if self.closed: raise ReferenceError("tree used after its file was closed")
        if not 0 <= i < len(self.spills): return 0
        if self.data.life is not None: self.data.life.dead = True
        self.data.life = o = Life()
        s = self.spills[i]
        self.reads.append(i)
        self.data.spill = Item({"SpillNumber": s["number"], "MCEvents": [mc_event(e, o) for e in s["mc"]], "ReconEvents": [recon_event(e, o) for e in s["recon"]]}, o)
        return 1
FILES = {}
class TFile(object):
    open_files = 0
    def __init__(self, name, mode="READ"):
        if mode.upper() != "READ": raise ValueError("input must be opened for reading: %r" % mode)
        self.tree = Tree(FILES[name])
        TFile.open_files += 1
    def Get(self, name): return self.tree if name == "Spill" else None
    def Close(self):
        if not self.tree.closed: TFile.open_files -= 1
        self.tree.closed = True

def install():
    root = types.ModuleType("ROOT")
    root.MAUS = types.SimpleNamespace(Data=Data)
    root.TFile = TFile
    root.gStyle = types.SimpleNamespace(SetPalette=lambda *a: None)
    sys.modules["ROOT"] = root
    sys.modules["libMausCpp"] = types.ModuleType("libMausCpp")
    m = types.ModuleType("maus_cpp")
    m.globals, m.simulation = types.ModuleType("maus_cpp.globals"), types.ModuleType("maus_cpp.simulation")
    sys.modules.update({"maus_cpp": m, "maus_cpp.globals": m.globals, "maus_cpp.simulation": m.simulation})
    return m
