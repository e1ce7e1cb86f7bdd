import math
import mc, iofmt
mc.block_root()
import xboa.common as common
from xboa.hit import Hit

# restated from the particle data tables and the manuals of the tracking codes
MASS = {0: 0, 11: 0.51099891, 12: 0, 13: 105.6583668, 14: 0, 22: 0, 111: 134.9766, 211: 139.57018, 321: 493.667, 2112: 939.56536, 2212: 938.271996,
        130: 497.614, 310: 497.614, 311: 497.614, 3122: 1115.683, 1000010020: 1876.12, 1000010030: 2809.43, 1000020030: 2809.41, 1000020040: 3728.40}
CHARGE = {11: -1, 12: 0, 13: -1, 14: 0, 22: 0, 111: 0, 211: 1, 321: 1, 2112: 0, 2212: 1, 130: 0, 310: 0, 311: 0, 3122: 0, 0: 0}
NAME = {"e-": 11, "e+": -11, "mu-": 13, "mu+": -13, "pi+": 211, "pi-": -211, "pi0": 111, "K+": 321, "K-": -321, "proton": 2212, "antiproton": -2212, "neutron": 2112,
        "antineutron": -2112, "photon": 22, "lambda": 3122, "antilambda": -3122, "electron neutrino": 12, "electron antineutrino": -12,
        "muon neutrino": 14, "muon antineutrino": -14, "K0L": 130, "K0S": 310, "K0": 311, "deuterium": 1000010020, "tritium": 1000010030, "3He": 1000020030,
        "4He": 1000020040, "none": 0}
TABLES = ["icool", "mars", "mass", "charge", "name", "units", "constants", "icool_back", "mars_back", "muon1"]

class C32(mc.Check):
    pid = "C32"
    level = "model_checking"
    technique = "exhaustive enumeration of every table entry against independently restated tables"
    rule = "every entry of every particle and unit table, every pair of units of one dimension, and every particle type set on a hit"
    assumptions = ["names and masses of nuclei are those of neutral atoms, as in the table", "tracking-code numbers that map to 0 are particles xboa does not know"]
    def tables(self):
        return {"icool": common.icool_pid_to_pdg, "mars": common.mars_pid_to_pdg, "mass": common.pdg_pid_to_mass, "charge": common.pdg_pid_to_charge,
                "name": common.pdg_pid_to_name, "units": common.units, "constants": common.constants, "icool_back": common.pdg_pid_to_icool,
                "mars_back": common.pdg_pid_to_mars, "muon1": common.pdg_pid_to_muon1}
    def cases(self):
        t = self.tables()
        for n in TABLES:
            for k in sorted(t[n], key=str): yield [n, k]
        for n, want in (("icool", iofmt.ICOOL.values()), ("mars", iofmt.MARS.values()), ("mass", MASS), ("charge", CHARGE), ("units", iofmt.UNITS), ("name", NAME.values())):
            for k in sorted(want, key=str): yield ["present", n, k]
        for a in sorted(iofmt.UNITS):
            for b in sorted(iofmt.UNITS): yield ["ratio", a, b]
    def run_case(self, case):
        t = self.tables()
        n, k = case[0], case[1]
        mc.seen(case)
        if n == "present":
            mc.need(case[2] in t[case[1]], "entry-missing", case)
        elif n in ("icool", "mars"):
            pdg = t[n][k]
            back = {"icool": iofmt.ICOOL, "mars": iofmt.MARS}[n]
            if pdg == 0: mc.need(not [p for p, c in back.items() if c == k and p != 0], "code-unknown", case)
            else:
                mc.need(back.get(pdg) == k, "wrong-particle", case, pdg)
                mc.need(t[n + "_back"][pdg] == k, "not-invertible", case, pdg)
                mc.need(sum(v == pdg for v in t[n].values()) == 1, "two-codes", case, pdg)
                mc.need(abs(pdg) in t["mass"], "no-mass", case)
        elif n.endswith("_back"):
            mc.need(t[n[:-5]][t[n][k]] == k, "not-invertible", case)
        elif n == "muon1":
            mc.need(common.muon1_pid_to_pdg[t[n][k]] == k and t["name"][k] == t[n][k], "wrong-particle", case)
        elif n == "mass":
            mc.need(k >= 0, "mass-of-antiparticle", case)
            mc.near(float(t[n][k]), float(MASS[k]), "mass", case, rel=1e-5, abs_=1e-12)
        elif n == "charge":
            if abs(k) in CHARGE: mc.need(t[n][k] == CHARGE[abs(k)] * (1 if k >= 0 else -1), "charge", case, t[n][k])
            if -k in t[n]: mc.need(t[n][-k] == -t[n][k], "antiparticle-charge", case)
            mc.need(abs(k) in t["mass"], "no-mass", case)
            h = Hit.new_from_dict({"pid": k, "mass": t["mass"][abs(k)], "charge": t[n][k], "px": 3.0, "pz": 4.0}, "energy")
            mc.near(h["energy"], math.sqrt(t["mass"][abs(k)] ** 2 + 25.0), "energy", case)
        elif n == "name":
            mc.need(NAME.get(t[n][k]) == k, "name", case, t[n][k])
            mc.need(sum(v == t[n][k] for v in t[n].values()) == 1, "two-names", case)
        elif n == "units":
            mc.need(k in iofmt.UNITS, "unit-unknown", case)
            mc.near(t[n][k], iofmt.UNITS[k], "unit", case, rel=1e-8, abs_=0)
        elif n == "constants":
            mc.near(float(t[n][k]), {"c_light": 299.792458, "pi": math.pi, "echarge": 1.0}[k], "constant", case, rel=1e-8)
        elif n == "ratio":
            a, b = case[1:]
            mc.near(t["units"][a] / t["units"][b], iofmt.UNITS[a] / iofmt.UNITS[b], "unit-ratio", case, rel=1e-7, abs_=0)
            h = Hit()
            h["x"] = 3.0 * t["units"][a]
            mc.near(h["x"] / t["units"][b], 3.0 * iofmt.UNITS[a] / iofmt.UNITS[b], "unit-ratio", case, rel=1e-7, abs_=0)
        return case

if __name__ == "__main__":
    mc.main(C32)
