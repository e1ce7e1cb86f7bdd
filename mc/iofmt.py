"""What each line-based format carries, restated from the formats' documentation."""
import math
U = {"mm": 1.0, "cm": 10.0, "m": 1000.0, "GeV/c": 1000.0, "MeV/c": 1.0, "s": 1e9, "ns": 1.0, "T": 1e-3, "GV/m": 1e3 / 1e3, "GeV": 1000.0}
# column names in file order, with the unit of each
COLS = {
 "icool_for009": ["event_number", "particle_number", "pid", "status", "station", "t:s", "x:m", "y:m", "z:m", "px:GeV/c", "py:GeV/c", "pz:GeV/c",
                  "bx:T", "by:T", "bz:T", "local_weight", "ex:GV/m", "ey:GV/m", "ez:GV/m", "-", "sx", "sy", "sz"],
 "icool_for003": ["event_number", "particle_number", "pid", "status", "t:s", "local_weight", "x:m", "y:m", "z:m", "px:GeV/c", "py:GeV/c", "pz:GeV/c", "sx", "sy", "sz"],
 "g4beamline_bl_track_file": ["x:L", "y:L", "z:L", "px:MeV/c", "py:MeV/c", "pz:MeV/c", "t:ns", "pid", "event_number", "particle_number", "-", "local_weight"],
 "g4beamline_bl_track_file_2": ["x:L", "y:L", "z:L", "px:MeV/c", "py:MeV/c", "pz:MeV/c", "t:ns", "pid", "event_number", "particle_number", "-", "local_weight", "-", "-", "-"],
 "mars_1": ["event_number", "pid", "x:mm", "y:mm", "z:mm", "px:GeV/c", "py:GeV/c", "pz:GeV/c", "energy:GeV", "ct:cm", "local_weight"],
}
HEADER = {"icool_for009": 3, "icool_for003": 2, "g4beamline_bl_track_file": 0, "g4beamline_bl_track_file_2": 0, "mars_1": 0}
INTS = ("event_number", "particle_number", "pid", "status", "station")
FORMATS = list(COLS)
MASS = {11: 0.510998910, -11: 0.510998910, 13: 105.6583668, -13: 105.6583668, 211: 139.57018, -211: 139.57018, 2212: 938.271996}
CHARGE = {11: -1.0, -11: 1.0, 13: -1.0, -13: 1.0, 211: 1.0, -211: -1.0, 2212: 1.0}
ICOOL = {-11: 1, -13: 2, 211: 3, 321: 4, 2212: 5, 11: -1, 13: -2, -211: -3, -321: -4, -2212: -5, 0: 0}
MARS = {2212: 1, 2112: 2, 211: 3, -211: 4, 321: 5, -321: 6, -13: 7, 13: 8, 22: 9, 11: 10, -11: 11, -2212: 12, 111: 13, 1000010020: 14,
        1000010030: 15, 1000020030: 16, 1000020040: 17, 14: 18, -14: 19, 12: 20, -12: 21, 130: 22, 310: 23, 311: 24, -311: 25, 3122: 26,
        -3122: 27, 0: 40, -2112: 31}

def carried(fmt):
    """Variables a format carries besides pid (mass, charge and energy follow from it)."""
    out = []
    for c in COLS[fmt]:
        n = c.split(":")[0]
        if n in ("-", "pid", "energy"): continue
        out.append("t" if n == "ct" else n)
    return out

def on_shell(d):
    d["mass"] = MASS[d["pid"]]
    d["charge"] = CHARGE[d["pid"]]
    d["energy"] = math.sqrt(sum(d.get(k, 0.0) * d.get(k, 0.0) for k in ("px", "py", "pz", "mass")))
    return d

def parse_line(fmt, line, g4unit="mm"):
    """Values of one intact line, or None: right number of columns, all numeric, integers in range."""
    w = line.split()
    if len(w) != len(COLS[fmt]): return None
    d = {}
    for c, s in zip(COLS[fmt], w):
        n, _, u = c.partition(":")
        if n == "-": continue
        try:
            v = float(s)
            if n in INTS:
                try: v = int(s)
                except ValueError: v = int(v)
                if not -2 ** 31 <= v < 2 ** 31: return None
            elif u: v *= U[g4unit if u == "L" else u]
        except (ValueError, OverflowError):
            return None
        d[n] = v
    if "icool" in fmt or "mars" in fmt:
        inv = {v: k for k, v in (ICOOL if "icool" in fmt else MARS).items()}
        if d["pid"] not in inv: return None
        d["pid"] = inv[d["pid"]]
    if "ct" in d: d["t"] = d.pop("ct") / 299.792458
    d.pop("energy", None)
    return d

# every unit of the internal unit table, from SI prefixes (internal: mm, ns, MeV, MV, electron charge, radian)
UNITS = {"": 1.0}
for _p, _f in (("mu", 1e-6), ("m", 1e-3), ("c", 1e-2), ("", 1.0), ("k", 1e3)): UNITS[_p + "m"] = 1e3 * _f
for _p, _f in (("n", 1e-9), ("mu", 1e-6), ("m", 1e-3), ("", 1.0)): UNITS[_p + "s"] = 1e9 * _f
for _p, _f in (("", 1e-6), ("k", 1e-3), ("M", 1.0), ("G", 1e3), ("T", 1e6)):
    for _s in ("eV", "eV/c", "eV/c2"): UNITS[_p + _s] = _f
    if _p != "T": UNITS[_p + "V"] = _f
for _p, _f in (("m", 1e-3), ("", 1.0), ("k", 1e3)): UNITS[_p + "T"] = 1e-3 * _f    # V s / m^2
UNITS["Gauss"] = 1e-7
for _p, _f in (("k", 1e3), ("M", 1e6), ("G", 1e9)):
    UNITS[_p + "Hz"] = _f / 1e9
    UNITS[_p + "W"] = _f * 6.24150974e12 / 1e9                                       # J/s in MeV/ns
UNITS["GV/m"] = 1e3 / 1e3
UNITS["GV/mm"] = 1e3
for _s in ("degrees", "deg", "degree"): UNITS[_s] = math.pi / 180
for _s in ("radians", "rad", "radian"): UNITS[_s] = 1.0
UNITS["echarge"] = 1.0
UNITS["Coulomb"] = 6.24150974e18
