import itertools, json, math, pickle
import mc
import maus_standin as ms
maus = ms.install()
from xboa.hit import Hit
from xboa.tracking import MAUSTracking
import models, iofmt

MASS, CHARGE = dict(iofmt.MASS), dict(iofmt.CHARGE)
MASS.update({22: 0.0, 2112: 939.56536, 321: 493.667, -321: 493.667})
CHARGE.update({22: 0.0, 2112: 0.0, 321: 1.0, -321: -1.0})
PIDS = [-13, 11, 2212, 211, 22, 2112, 321, -321, 13, -211, -11]
VALUES = [0.0, -1.5, 1e-9, 2.0 ** 40, 0.1, -1e4, 3.25]
SENT = {"position": {"x": "x", "y": "y", "z": "z"}, "momentum": {"x": "px", "y": "py", "z": "pz"}}
CARDS = [None, {"a": 1, "b": [1, 2.5, None]}, [{"z": 1}, 2], '{"spill": 4}']

class Maus(object):
    """Records what it is asked, and answers from a script: for each particle the number of virtual hits (None: no list)."""
    def __init__(self):
        self.alive, self.log, self.sent, self.answer, self.made, self.fail = False, [], [], [], [], None
        maus.globals.has_instance = lambda: self.alive
        maus.globals.birth, maus.globals.death = self.birth, self.death
        maus.simulation.track_particles = self.track
    def birth(self, cards):
        if self.alive: raise RuntimeError("MAUS is already running")
        self.alive = True
        self.log.append(["birth", cards])
    def death(self):
        if not self.alive: raise RuntimeError("MAUS is not running")
        self.alive = False
        self.log.append(["death"])
    def track(self, text):
        if not self.alive: raise RuntimeError("MAUS is not running")
        doc = json.loads(text)
        self.sent.append(doc)
        if self.fail: raise RuntimeError(self.fail)
        out, self.made = [], []
        for i, d in enumerate(doc):
            p = d["primary"]
            n = self.answer[i % len(self.answer)] if self.answer else 1
            ev, made = {"primary": p, "random_seed": p["random_seed"]}, []
            if n is not None:
                ev["virtual_hits"] = []
                for k in range(n):
                    pid = PIDS[(i + k) % len(PIDS)] if k % 2 else p["particle_id"]
                    v = {"position": {"x": 0.5 + i, "y": -0.25 * k, "z": 1000.0 * k}, "momentum": {"x": 1.0 + k, "y": 0.125 * i, "z": 150.0 + k}, "time": 3.5 * k + i,
                         "particle_id": pid, "track_id": 1 + (k * 3 + i) % 5, "station_id": 10 - k, "proper_time": 1.0}
                    ev["virtual_hits"].append(v)
                    made.append(v)
            out.append(ev)
            self.made.append(made)
        return json.dumps(out)

def hit_of(k, **kw):
    d = {v: 0.125 * (i + 1) * (k + 1) for i, v in enumerate(models.DOUBLES)}
    d.update({v: 3 + i + k for i, v in enumerate(models.INTS)})
    d.update(x=1.5 + k, px=-3.0 * k, pz=200.0 - k, t=0.5 * k, local_weight=0.5)
    d["pid"] = PIDS[k % len(PIDS)]
    d["mass"], d["charge"] = MASS[abs(d["pid"])], CHARGE[d["pid"]]
    d.update(kw)
    if "energy" not in kw: d["energy"] = math.sqrt(d["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
    return d

class C41(mc.Check):
    pid = "C41"
    level = "model_checking"
    technique = "exhaustive exploration of histories of tracking calls, restarts and copies on the real code, with a stand-in for MAUS that records what it is asked and answers by script, against a model of the exchange"
    rule = ("all sequences of up to 4 (thorough 5) of 9 operations on a MAUS tracking object (one hit, none, two equal hits, three hits with differing answers, events without a list of crossings, a failing simulation, "
            "pickled copies, a second object) from 4 kinds of datacards and 3 seeds; every variable that is sent and every variable that comes back over 7 values; every particle type")
    assumptions = ["MAUS answers as its stand-in does: one event for each particle, in order", "particle types are in the particle table"]
    def cases(self):
        top = 5 if self.thorough else 4
        for n in range(1, top + 1):
            for ops in itertools.product(range(9), repeat=n): yield ["history", sum(ops) % len(CARDS), [0, 22, -3][sum(ops) % 3], list(ops)]
        for c in range(len(CARDS)):
            for running in (False, True):
                for ops in itertools.product(range(9), repeat=1): yield ["history", c, 5, list(ops)]
                yield ["start", c, running]
        for n in (12, 40):
            for k in range(8): yield ["history", k % len(CARDS), [0, 22, -3][k % 3], [(i * (k + 1) + i // 9 + i * i // 5) % 9 for i in range(n)]]
        for i, v in enumerate(["x", "y", "z", "px", "py", "pz", "energy", "t"]):
            for k in range(len(VALUES)): yield ["value", v, k]
        for v in ("x", "y", "z", "px", "py", "pz", "time", "station_id", "track_id"):
            for k in range(len(VALUES)): yield ["back", v, k]
        for pid in PIDS: yield ["pid", pid]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def image(self, h): return {v: h[v] for v in models.STORED}
    def same(self, case, h, want, what):
        for v in models.STORED:
            w = want.get(v, 1.0 if v == "local_weight" else 0)
            if v == "energy": mc.near(h[v], w, "energy", case, what, rel=1e-12)
            else: mc.need(h[v] == w, "wrong value", case, what, v, h[v], "for", w)
    def check(self, case, m, ins, out, spill, seed, what):
        doc = m.sent[-1]
        mc.need(len(doc) == len(ins) and len(out) == len(ins), "number of particles", case, what, len(doc), len(out))
        for i, (d, q, o) in enumerate(zip(ins, doc, out)):
            want = {a: {b: d[c] for b, c in t.items()} for a, t in SENT.items()}
            want.update(particle_id=d["pid"], energy=d["energy"], time=d["t"], random_seed=seed + i)
            mc.need(q == {"primary": want}, "particle sent", case, what, i, q, "for", want)
            p = {v: d[v] for v in ("x", "y", "z", "px", "py", "pz", "pid", "energy", "t")}
            p.update(mass=MASS[abs(d["pid"])], charge=CHARGE[d["pid"]], particle_number=1, event_number=i, spill=spill, station=-1)
            mc.need(len(o) == 1 + len(m.made[i]), "number of crossings", case, what, i, len(o))
            self.same(case, o[0], p, [what, i, "primary"])
            for k, (v, h) in enumerate(zip(m.made[i], o[1:])):
                self.same(case, h, self.crossing(v, i, spill), [what, i, "crossing", k])
    def crossing(self, v, i, spill):
        w = {a: v["position"][a] for a in "xyz"}
        w.update({"p" + a: v["momentum"][a] for a in "xyz"})
        w.update(t=v["time"], pid=v["particle_id"], mass=MASS[abs(v["particle_id"])], charge=CHARGE[v["particle_id"]], station=v["station_id"], particle_number=v["track_id"], event_number=i, spill=spill)
        w["energy"] = math.sqrt(w["mass"] ** 2 + w["px"] ** 2 + w["py"] ** 2 + w["pz"] ** 2)
        return w
    def cards(self, case, text, c, what):
        mc.need(isinstance(text, str) and (text == c if isinstance(c, str) else json.loads(text) == c), "datacards", case, what, text, c)
    def start(self, case, c, running):
        m = Maus()
        m.alive = running
        t = MAUSTracking(CARDS[c])
        if CARDS[c] is None: mc.need(m.log == [] and m.alive == running, "MAUS restarted without datacards", case, m.log)
        else:
            mc.need([e[0] for e in m.log] == (["death"] if running else []) + ["birth"], "restart", case, m.log)
            self.cards(case, m.log[-1][1], CARDS[c], "start")
        mc.need(t.last == [], "last", case, t.last)
        return "start"
    def history(self, case, c, seed, ops):
        m = Maus()
        if CARDS[c] is None: m.alive = True
        t = MAUSTracking(CARDS[c], seed)
        seeds, spills, last, own = [seed], [0], [[]], [CARDS[c]]
        objs, j, obs, kept = [t], 0, set(), []
        for n, op in enumerate(ops):
            if op == 6:
                births = len(m.log)
                copy = pickle.loads(pickle.dumps(objs[j], 2 + n % 3))
                if own[j] is not None:
                    mc.need([e[0] for e in m.log[births:]] == ["death", "birth"], "restart of a copy", case, m.log[births:])
                    self.cards(case, m.log[-1][1], own[j], "copy")
                else: mc.need(len(m.log) == births, "MAUS restarted without datacards", case, m.log[births:])
                own.append(own[j]); objs.append(copy); seeds.append(seeds[j]); spills.append(spills[j]); last.append(last[j])
                j = len(objs) - 1
            elif op == 7:
                objs.append(MAUSTracking(None, 7)); own.append(None); seeds.append(7); spills.append(0); last.append([])
                j = len(objs) - 1
            elif op == 8: j = (j + 1) % len(objs)
            else:
                ks, m.answer = [([n], [2]), ([], []), ([n, n], [1, 0]), ([n, n + 1, n + 5], [0, 3, 1]), ([n + 2, n], [None, 2]), ([n, n + 1], [1])][op]
                m.fail = "simulation failed" if op == 5 else None
                ds = [hit_of(k) for k in ks]
                hits = [Hit.new_from_dict(dict(d)) for d in ds]
                if op == 2: hits = [hits[0]] * 2
                before = [self.image(h) for h in hits]
                try: out = [objs[j].track_one(hits[0])] if op == 0 else objs[j].track_many(hits)
                except RuntimeError:
                    mc.need(op == 5, "unexpected failure", case, n)
                    seeds[j] = None # not specified
                else:
                    mc.need(op != 5, "failure of the simulation passed over", case, n)
                    if seeds[j] is None and ds: seeds[j] = m.sent[-1][0]["primary"]["random_seed"]
                    self.check(case, m, ds, out, spills[j], seeds[j], ["step", n])
                    if ds: seeds[j] += len(ds)
                    spills[j] += 1
                    last[j] = [[self.image(h) for h in o] for o in out]
                    kept.append((n, out, last[j]))
                mc.need([self.image(h) for h in hits] == before, "input hits changed", case, n)
            for i, o in enumerate(objs):
                mc.need([[self.image(h) for h in l] for l in o.last] == last[i], "last", case, "step", n, "object", i)
            for k, out, im in kept: mc.need([[self.image(h) for h in o] for o in out] == im, "an earlier answer changed", case, "step", n, "answer of", k)
            mc.S.add("transitions")
            obs.add(op)
        return "history:%s" % sorted(obs)
    def value(self, case, v, k):
        m = Maus()
        m.alive = True
        d = hit_of(2, **{v: VALUES[k]})
        t = MAUSTracking(None, 1)
        self.check(case, m, [d], t.track_many([Hit.new_from_dict(dict(d))]), 0, 1, "value")
        return "value:%s" % v
    def back(self, case, v, k):
        m = Maus()
        m.alive = True
        x = VALUES[k] if v not in ("station_id", "track_id") else [0, 1, -1, 9, 100, 2 ** 31 - 1, 3][k]
        orig = m.track
        def track(text):
            doc = json.loads(orig(text))
            q = doc[0]["virtual_hits"][0]
            if v in "xyz": q["position"][v] = x
            elif v in ("px", "py", "pz"): q["momentum"][v[1]] = x
            else: q[v] = x
            m.made = [e["virtual_hits"] for e in doc]
            return json.dumps(doc)
        maus.simulation.track_particles = track
        d = hit_of(3)
        self.check(case, m, [d], [MAUSTracking(None, 4).track_one(Hit.new_from_dict(dict(d)))], 0, 4, "back")
        return "back:%s" % v
    def pid(self, case, pid):
        m = Maus()
        m.alive = True
        d = hit_of(3, pid=pid, mass=MASS[abs(pid)], charge=CHARGE[pid])
        self.check(case, m, [d], [MAUSTracking(None, 4).track_one(Hit.new_from_dict(dict(d)))], 0, 4, "pid")
        return "pid"

if __name__ == "__main__": mc.main(C41)
