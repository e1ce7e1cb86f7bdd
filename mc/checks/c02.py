import itertools, math
import mc, models
mc.block_root()
from xboa.hit import Hit
from xboa.core import Hitcore

BASE = dict(x=1.25, y=-0.75, z=11.0, t=3.5, px=0.5, py=-1.5, pz=2.0, energy=7.0, mass=1.5,
            bx=.1, by=.2, bz=.3, ex=.4, ey=.5, ez=.6, sx=.7, sy=.8, sz=-.9,
            path_length=13.0, proper_time=17.0, e_dep=19.0, charge=-1.0, local_weight=0.25,
            spill=2, event_number=3, particle_number=4, station=5, pid=-13, status=6)
METHOD = {"p": "get_p", "r": "get_r", "phi": "get_phi", "pt": "get_pt", "pphi": "get_pphi",
          "r_squared": "get_r_squared", "x'": "get_xP", "y'": "get_yP", "t'": "get_tP",
          "r'": "get_rP", "spin": "get_spin", "ct": "get_ct", "kinetic_energy": "get_ek",
          "l_kin": "get_l_kin", "weight": "get_weight", "local_weight": "get_local_weight",
          "global_weight": "get_global_weight"}
DIV = ("x'", "y'", "t'", "ct'", "r'")

def model_set(w, d, name, v):
    """Returns 'ok', 'raise' (must raise, nothing else may move) or 'energy' (raises)"""
    if name == "p":
        p = models.DERIVED["p"](d)
        if p == 0.0: d["pz"], p = 1.0, 1.0
        for k in ("px", "py", "pz"): d[k] *= v / p
    elif name == "x'" or name == "y'":
        if abs(d["pz"]) < 1e-9: return "raise"
        d["p" + name[0]] = v * d["pz"]
    elif name == "t'":
        if abs(d["pz"]) < 1e-9: return "raise"
        e, pz = -v * d["pz"], d["pz"]
        if pz < 0: e, pz = -e, -pz
        d["energy"], d["pz"] = e, pz
        if e < d["mass"]: return "energy"
    elif name == "ct": d["t"] = v / models.C_LIGHT
    elif name == "kinetic_energy": d["energy"] = v + d["mass"]
    elif name == "": pass
    else: w.set(d, name, v)
    return "ok"

class C02(mc.Check):
    pid = "C02"
    level = "model_checking"
    rule = ("every derived quantity on every hit state of a lattice in the variables it depends on; "
            "all sequences of derived and stored assignments up to a depth from several start states")
    def states(self):
        mom = [0.0, -3.0, 4.0, 0.5] + ([1e-4, -250.0] if self.thorough else [])
        pos = [0.0, -2.0, 5.0] + ([1e3, -1e-3] if self.thorough else [])
        for px, py, pz in itertools.product(mom, repeat=3):
            for x, y in itertools.product(pos, repeat=2):
                yield dict(px=px, py=py, pz=pz, x=x, y=y)
        for e, m, pz, t in itertools.product([0.0, 5.0, 226.0], [0.0, 0.511, 105.658], [2.0, -2.0, 200.], [0.0, -1.5, 100.]):
            yield dict(energy=e, mass=m, pz=pz, t=t)
        for sx, sy, sz in itertools.product([0.0, -3.0, 4.0, 12.0], repeat=3):
            yield dict(sx=sx, sy=sy, sz=sz)
        for lw, gw, ev in itertools.product([0.0, 1.0, 0.5, -2.0], [None, 0.0, 3.0, 0.25], [0, 7]):
            yield dict(local_weight=lw, global_weight=gw, event_number=ev)
    OPS = [["p", 5.0], ["p", 0.25], ["x'", 0.5], ["x'", -2.0], ["y'", 0.0], ["y'", 1.5], ["t'", -1.5],
           ["t'", -40.0], ["t'", 2.0], ["ct", -600.0], ["ct", 0.0], ["kinetic_energy", 10.0],
           ["kinetic_energy", 0.0], ["pz", -2.0], ["pz", 0.0], ["px", 0.0], ["mass", 0.0], ["", 4.0]]
    STARTS = [dict(), dict(pz=-2.0), dict(px=0.0, py=0.0, pz=0.0), dict(pz=0.0), dict(pz=1e-12, mass=0.0),
              dict(px=0.0, py=0.0, mass=0.0), dict(px=3e-9, py=0.0, pz=4e-9), dict(px=-2e-5, py=1e-7, pz=3e-5, mass=1e-6),
              dict(px=3e8, py=-4e8, pz=1e9, mass=1e6, energy=2e9)]
    def cases(self):
        for s in self.states(): yield ["get", s]
        depth = 4 if self.thorough else 3
        for s in range(len(self.STARTS)):
            for ops in itertools.product(range(len(self.OPS)), repeat=depth):
                yield ["set", s, list(ops)]
    def start(self, upd):
        Hitcore.clear_global_weights()
        w = models.World()
        d = w.new(**BASE)
        hit, other = Hit(), Hit()
        for k, v in BASE.items(): hit.set(k, v)
        w.new()
        for k, v in upd.items():
            if k == "global_weight" and v is None: continue
            w.set(d, k, v)
            hit.set(k, v)
        return w, d, hit, other
    def compare(self, w, d, hit, what):
        for name in models.STORED + ["global_weight"]:
            mc.near(hit.get(name), w.get(d, name), "stored:" + name, what, rel=1e-12, abs_=1e-300)
        for name in list(models.DERIVED) + ["weight"]:
            if name in DIV and d["pz"] == 0.0:
                try:
                    v = hit.get(name)
                except (ZeroDivisionError, FloatingPointError):
                    continue
                mc.need(not math.isfinite(v), "divergence:" + name, "pz=0 but", name, "reads", v)
                continue
            e = w.get(d, name)
            mc.near(hit.get(name), e, "derived:" + name, what, name, rel=1e-12, abs_=1e-13)
            mc.near(hit[name], e, "derived-item:" + name, what, name, rel=1e-12, abs_=1e-13)
            if name in METHOD:
                mc.near(getattr(hit, METHOD[name])(), e, "derived-method:" + name, what, name, rel=1e-12, abs_=1e-13)
        mc.seen(sorted(d.items()))
    def run_case(self, case):
        if case[0] == "get":
            w, d, hit, other = self.start(case[1])
            self.compare(w, d, hit, case[1])
            return sorted(case[1].items(), key=lambda kv: kv[0])
        w, d, hit, other = self.start(self.STARTS[case[1]])
        ref = [other.get(n) for n in models.STORED]
        for k in case[2]:
            name, v = self.OPS[k]
            mc.S.add("transitions")
            before = dict(d)
            expect = model_set(w, d, name, v)
            try:
                hit.set(name, v) if k % 2 else hit.__setitem__(name, v)
                raised = None
            except Exception as e:
                raised = e
            if expect == "ok":
                mc.need(raised is None, "raised:" + name, "set", name, v, "raised", raised)
                self.compare(w, d, hit, "after %s=%s" % (name, v))
                if name == "p" or name in DIV or name in ("ct", "kinetic_energy"):
                    mc.near(hit.get(name), v, "readback:" + name, "state", before, rel=1e-12, abs_=1e-13)
            elif expect == "raise":
                mc.need(raised is not None, "no-error:" + name, "set", name, v, "with pz=0 did not raise")
                self.compare(w, d, hit, "after rejected %s=%s" % (name, v))
            else:
                mc.need(raised is not None, "no-error:" + name, "set", name, v, "below mass did not raise")
                return ["stopped", case[1], case[2]]
        mc.need(ref == [other.get(n) for n in models.STORED], "bystander", "another hit changed")
        return case[1:]

if __name__ == "__main__":
    mc.main(C02)
