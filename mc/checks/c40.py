import contextlib, io, itertools, math, os
import mc
import maus_standin as ms
ms.install()
from xboa.hit import Hit, BadEventError
from xboa.hit.factory import MausRootHitFactory, MausRootReconHitFactory
from xboa.bunch import Bunch
import models
import iofmt

VIRTUAL, PRIMARY, STEP, POINT, TOF = ["maus_root_" + s for s in ("virtual_hit", "primary", "step", "scifi_trackpoint", "scifi_and_tof")]
TYPES = [VIRTUAL, PRIMARY, STEP, POINT, TOF]
MASS, CHARGE = dict(iofmt.MASS), dict(iofmt.CHARGE)
MASS.update({22: 0.0, 2112: 939.56536, 321: 493.667, 0: 0.0})
CHARGE.update({22: 0.0, 2112: 0.0, 321: 1.0, -321: -1.0, -2212: -1.0, 0: 0.0})
PIDS = [-13, 11, 2212, 211, 22, 2112]
VARS = {VIRTUAL: ["x", "y", "z", "t", "px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "pid", "station", "particle_number", "mass", "charge", "proper_time", "path_length"],
        PRIMARY: ["x", "y", "z", "t", "pid"],
        STEP: ["x", "y", "z", "t", "px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz", "pid", "particle_number", "proper_time", "path_length"],
        POINT: ["x", "y", "z", "px", "py", "pz"], TOF: ["x", "y", "z", "px", "py", "pz"]}
VALUES = [0.0, -1.5, 1e-9, 2.0 ** 40, 0.1, -1e4, 3.25]
NEAR = {k: (i + 1) * 0.125 for i, k in enumerate(VARS[STEP])}
TESTS = [None, lambda h: h["x"] > 2.0, lambda h: h["event_number"] == 0, lambda h: h["pz"] > 100.5, lambda h: False, lambda h: h["spill"] != 7]
COUNT = [0]

def particle(i, **kw):
    """The i-th different particle"""
    d = {k: v * (i + 1) for k, v in NEAR.items()}
    d.update(x=float(i), pz=100.0 + i % 3, pid=PIDS[i % len(PIDS)], station=i % 4, particle_number=1 + i % 3)
    d.update(kw)
    d.setdefault("mass", MASS.get(abs(d["pid"])))
    d.setdefault("charge", float(CHARGE.get(d["pid"], 0)))
    if "energy" not in d: d["energy"] = 1.25 * math.sqrt(d["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
    return d
def event(i, nv, steps, tracks=(), tof="none"):
    """nv virtual hits, tracks with the given numbers of steps, reconstructed tracks with the given numbers of points"""
    return {"primary": particle(i), "virtual": [particle(i + 1 + k) for k in range(nv)],
            "tracks": [{"pid": PIDS[(i + j) % 6], "id": 5 + 2 * j, "steps": [particle(i + 10 * j + k, pid=PIDS[(i + j) % 6]) for k in range(n)]} for j, n in enumerate(steps)],
            "points": [{"p_value": 0.25 * (j + 1), "points": [dict(particle(i + 3 * j + k), tracker=j % 2, station=1 + (i + k) % 5, plane=(i + j + k) % 3) for k in range(n)]} for j, n in enumerate(tracks)],
            "tof": TOFS[tof]}
TOFS = {"none": {"Time": ([], []), "RawTime": ([], []), "LeadingTime": ([], [])},
        "points": {"Time": ([10.0, 12.0], [37.5, 41.0]), "RawTime": ([1.0], [3.0]), "LeadingTime": ([5.0], [9.0])},
        "half": {"Time": ([10.0], []), "RawTime": ([1.0, 4.0], [30.0, 31.0, 35.0]), "LeadingTime": ([5.0], [9.0])},
        "digits": {"Time": ([], [4.0]), "RawTime": ([], [8.0]), "LeadingTime": ([5.0, 6.0], [39.0])},
        "lost": {"Time": ([], [4.0]), "RawTime": ([8.0], []), "LeadingTime": ([], [3.0])}}
SHAPES = [[], [(0, [], [])], [(1, [2], [1], "points")], [(2, [1, 2], [2, 1], "half"), (0, [0], [], "points")], [(0, [], [0], "digits"), (3, [3], [2, 1], "digits"), (1, [1], [1], "lost"), (0, [2], [2], "half")],
          [(1, [1], [3], "none"), (1, [], [1], "points")]]
NUMBERS = [7, 0, 3, 7, 12, 1]
def spill(k, pos):
    evs = [event(11 * k + 5 * j + 3 * pos, *e) for j, e in enumerate(SHAPES[k])]
    return {"number": NUMBERS[k] + 20 * (pos % 2), "mc": evs, "recon": [{"tracks": e["points"], "tof": e["tof"]} for e in evs]}
def flight(tof, slabs, digits):
    a, b = tof["Time"]
    if a and b: return b[0] - a[0]
    for name, use in (("RawTime", slabs), ("LeadingTime", digits)):
        a, b = tof[name]
        if use and a and b: return sum(b) / len(b) - sum(a) / len(a)
    return None
def expect(spills, fmt, cut=-1.0, slabs=True, digits=True):
    """(spill index, record) of every particle of a type, in order; a record holds every variable that is not zero"""
    out = []
    for n, s in enumerate(spills):
        for j, e in enumerate(s["mc"]):
            base = {"spill": s["number"], "event_number": j}
            if fmt == VIRTUAL:
                out += [(n, shell(dict(base, **{v: d[v] for v in VARS[VIRTUAL]}))) for d in e["virtual"]]
            elif fmt == PRIMARY:
                d = e["primary"]
                m = MASS.get(abs(d["pid"]), 0.0)
                scale = math.sqrt(d["energy"] ** 2 - m ** 2) / math.sqrt(d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
                r = dict(base, energy=d["energy"], mass=m, charge=float(CHARGE.get(d["pid"], 0.0)), **{v: d[v] for v in VARS[PRIMARY]})
                r.update({v: d[v] * scale for v in ("px", "py", "pz")})
                out.append((n, r))
            elif fmt == STEP:
                for t in e["tracks"]:
                    for k, d in enumerate(t["steps"]):
                        r = dict(base, **{v: d[v] for v in VARS[STEP]})
                        r.update(pid=t["pid"], particle_number=t["id"], station=k, mass=MASS[abs(t["pid"])], charge=float(CHARGE[t["pid"]]))
                        out.append((n, shell(r)))
        for j, e in enumerate(s["recon"]):
            if fmt not in (POINT, TOF): break
            dt = 0.0 if fmt == POINT else flight(e["tof"], slabs, digits)
            if dt is None: continue
            for i, t in enumerate(e["tracks"]):
                if cut > 0 and t["p_value"] < cut: continue
                out += [(n, dict({v: d[v] for v in VARS[POINT]}, spill=s["number"], event_number=j, particle_number=i, t=dt, station=90000 + 100 * d["tracker"] + 10 * d["station"] + d["plane"]))
                        for d in t["points"]]
    return out
def shell(r):
    r["energy"] = math.sqrt(r["mass"] ** 2 + r["px"] ** 2 + r["py"] ** 2 + r["pz"] ** 2)
    return r
def factory(tree, fmt, *a): return (MausRootHitFactory if fmt in (VIRTUAL, PRIMARY, STEP) else MausRootReconHitFactory)(tree, fmt, *a)

class C40(mc.Check):
    pid = "C40"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of short sequences of MAUS ROOT spills and of histories of requests, through the real factories with stand-ins for the ROOT and MAUS data structure, against a cursor model"
    rule = ("every sequence of up to 3 (thorough 4) spills out of 6 shapes (empty, without hits, several events, tracks and steps, reconstructed tracks with every source of the time of flight), read as each of 5 types, "
            "from every entry to beyond the end, with 6 test functions, one by one, by generator and by interleaved requests for the next spill; every recorded variable over 7 values; p-value cuts and fallbacks; "
            "every pair of such files under one glob with every limit; all orders of types read from one file")
    assumptions = ["the accessors of MAUS behave as the stand-ins do", "particle types of virtual hits come with mass and charge; those of tracks are in the particle table", "energies of primaries are at least their mass"]
    def setup(self):
        self.names = []
    def cases(self):
        top = 4 if self.thorough else 3
        for n in range(0, top + 1):
            for ks in itertools.product(range(len(SHAPES)), repeat=n): yield ["read", list(ks)]
        for fmt in TYPES:
            for i, v in enumerate(VARS[fmt] + (["px", "py", "pz", "energy"] if fmt == PRIMARY else [])):
                for k in range(len(VALUES)): yield ["value", fmt, v, k]
        for pid in sorted(set(PIDS + [0, -11, 13, 321, -321, -2212, 10 ** 9])): yield ["pids", pid]
        for ks in itertools.product(range(len(SHAPES)), repeat=2):
            for cut in (-1.0, 0.0, 0.25, 0.3, 0.6):
                for f in range(4): yield ["recon", list(ks), cut, f]
        for a in itertools.product(range(1, len(SHAPES)), repeat=2): yield ["files", [a[0]], [a[1]]]
        for a in itertools.product(range(len(SHAPES)), repeat=3): yield ["files", [a[0], a[1]], [a[2]]]
        for n in range(0, 4 if self.thorough else 3):
            for ks in itertools.product(range(len(SHAPES)), repeat=n): yield ["types", list(ks)]
        for ks in itertools.product(range(len(SHAPES)), repeat=2 if not self.thorough else 3): yield ["history", list(ks)]
        for k in itertools.product(range(3), repeat=3): yield ["tof", list(k)]
        for n in (8, 20):
            for k in range(4): yield ["read", [(i * (k + 1) + i // 6 + i * i // 5) % len(SHAPES) for i in range(n)]]
        yield ["malformed"]
    def run_case(self, case):
        with contextlib.redirect_stdout(io.StringIO()):
            try: return getattr(self, case[0])(case, *case[1:])
            finally:
                for n in self.names: os.remove(n)
                self.names = []
                ms.FILES.clear()
    def match(self, case, hits, want, what):
        mc.need(len(hits) == len(want), "number of particles", case, what, len(hits), "for", len(want))
        for i, (h, (n, r)) in enumerate(zip(hits, want)): self.one(case, h, r, [what, i])
    def one(self, case, h, r, what):
        for v in models.STORED:
            w = r.get(v, 1.0 if v == "local_weight" else 0)
            if v == "energy" or (v[0] == "p" and len(v) == 2): mc.near(h[v], w, "wrong value", case, what, v, rel=1e-12, abs_=1e-9 if v != "energy" else 0)
            else: mc.need(h[v] == w, "wrong value", case, what, v, h[v], "for", w)
    def drain(self, fac):
        out = []
        while True:
            try: out.append(fac.make_hit())
            except BadEventError: return out
    def read(self, case, ks):
        spills = [spill(k, i) for i, k in enumerate(ks)]
        obs = []
        for fmt in TYPES:
            want = expect(spills, fmt)
            for start in range(len(ks) + 2):
                for t, fn in enumerate(TESTS):
                    if t and start > 1: continue
                    tree = ms.Tree(spills)
                    args = [start, fn] if fn is not None else ([start] if start else [])
                    fac = factory(tree, fmt, *args)
                    hits = self.drain(fac)
                    part = [x for x in want if x[0] >= start]
                    sel = [x for x in part if fn is None or fn(dict(x[1], spill=x[1]["spill"]))]
                    self.match(case, hits, sel, [fmt, "from", start, "test", t])
                    for again in range(2):
                        try: fac.make_hit()
                        except BadEventError: pass
                        else: mc.need(False, "particle after the last", case, fmt, start)
                    mc.S.add("transitions", len(hits))
                    if t < 2:
                        hits = list(factory(ms.Tree(spills), fmt, start, fn).hit_generator())
                        self.match(case, hits, sel, [fmt, "generator from", start, "test", t])
            for start in range(len(ks)):
                if fmt in (POINT, TOF): continue
                hits = Hit.new_list_from_maus_root(fmt, ms.Tree(spills), start)
                self.match(case, hits, [x for x in want if x[0] == start], [fmt, "list of spill", start])
            obs.append(len(want))
        return "read:%s" % obs
    def value(self, case, fmt, v, k):
        x = VALUES[k]
        if v in ("pid", "station", "particle_number"): x = [0, 1, -1, 9, 100, 2 ** 31 - 1, 3][k]
        d = particle(2)
        if v == "pid": x = (PIDS + [-211])[k]
        d[v] = x
        if fmt == PRIMARY:
            p, m = math.sqrt(d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2), MASS[abs(d["pid"])]
            if v != "energy": d["energy"] = m + 50.0
            else: d["energy"] = x = m + abs(x) + 1e-3
        e = event(1, 0, [])
        if fmt == VIRTUAL: e["virtual"] = [particle(4), d, particle(5)]
        if fmt == PRIMARY: e["primary"] = d
        if fmt == STEP:
            e["tracks"] = [{"pid": d["pid"], "id": d["particle_number"], "steps": [particle(6, pid=d["pid"]), d]}]
        if fmt in (POINT, TOF):
            e["points"] = [{"p_value": 0.5, "points": [dict(d, tracker=k % 3, station=k, plane=10 - k), dict(d, tracker=k, station=10, plane=k), dict(d, tracker=10, station=1, plane=10)]}]
            e["tof"] = TOFS[["points", "half", "digits"][k % 3]]
        s = [{"number": 4, "mc": [event(9, 1, [1]), e], "recon": [{"tracks": q["points"], "tof": q["tof"]} for q in (event(3, 0, [], [1], "points"), e)]}]
        self.match(case, self.drain(factory(ms.Tree(s), fmt)), expect(s, fmt), fmt)
        mc.S.add("transitions")
        return "value:%s" % fmt
    def pids(self, case, pid):
        """A particle that xboa does not know costs its mass and charge only"""
        e = event(1, 1, [])
        m = MASS.get(abs(pid), 0.0)
        e["primary"] = particle(2, pid=pid, mass=m, charge=0.0)
        e["virtual"] = [particle(3, pid=pid, mass=12.5, charge=-2.0)]
        s = [{"number": n, "mc": [event(2, 1, []), e, event(5, 1, [])], "recon": []} for n in range(2)]
        for fmt in (VIRTUAL, PRIMARY): self.match(case, self.drain(factory(ms.Tree(s), fmt)), expect(s, fmt), fmt)
        mc.S.add("transitions", 2)
        return "pid:%s" % bool(m)
    def recon(self, case, ks, cut, f):
        class Mine(MausRootReconHitFactory):
            sf_p_value_cut = cut
            fallback_on_slabs, fallback_on_digits = bool(f & 1), bool(f & 2)
        spills = [spill(k, i) for i, k in enumerate(ks)]
        for fmt in (POINT, TOF):
            self.match(case, self.drain(Mine(ms.Tree(spills), fmt)), expect(spills, fmt, cut, bool(f & 1), bool(f & 2)), fmt)
            mc.S.add("transitions")
        return "recon:%d:%d" % (len(expect(spills, POINT, cut)), len(expect(spills, TOF, cut, bool(f & 1), bool(f & 2))))
    def put(self, spills):
        n = "mr%d_%d.root" % (os.getpid(), len(self.names))
        open(n, "w").close()
        self.names.append(n)
        ms.FILES[n] = spills
        return n
    def files(self, case, a, b):
        sets = [[spill(k, i) for i, k in enumerate(ks)] for ks in (a, b)]
        for s in sets: self.put(s)
        import glob
        pattern = "mr%d_*.root" % os.getpid()
        order = [ms.FILES[n] for n in glob.glob(pattern)]
        obs = []
        for fmt in TYPES:
            want = [x for s in order for x in expect(s, fmt)]
            for t, fn in enumerate(TESTS):
                sel = [x for x in want if fn is None or fn(x[1])]
                for limit in range(-1, min(len(sel), 4) + 2):
                    got = Bunch.new_from_read_builtin(fmt, pattern, fn, limit)
                    self.match(case, list(got), sel if limit < 0 else sel[:limit], [fmt, "test", t, "limit", limit])
                    mc.need(ms.TFile.open_files == 0, "file left open", case, fmt)
                    mc.S.add("transitions")
            obs.append(len(want))
        return "files:%s" % obs
    def types(self, case, ks):
        spills = [spill(k, i) for i, k in enumerate(ks)]
        n = self.put(spills)
        lists = [None] + [[a] for a in TYPES] + [list(p) for p in itertools.permutations(TYPES, 2)] + [TYPES[::-1], []]
        for ts in lists:
            # the order in which all types are read is that of the factories' lists
            names = ts if ts is not None else MausRootHitFactory.file_types() + MausRootReconHitFactory.file_types()
            mc.need(sorted(names) == sorted(TYPES) or ts is not None, "types that can be read", case, names)
            want = [x for t in names for x in expect(spills, t)]
            for limit in (-1, 0, 1, 2, len(want), len(want) + 1):
                got = Bunch.read_maus_root_file(n, limit, ts)
                self.match(case, got, want if limit < 0 else want[:limit], [ts, "limit", limit])
                mc.S.add("transitions")
            for t, fn in enumerate(TESTS[1:]):
                self.match(case, Bunch.read_maus_root_file(n, list_of_maus_types=ts, test_function=fn), [x for x in want if fn(x[1])], [ts, "test", t])
        mc.need(ms.TFile.open_files == 0, "file left open", case)
        return "types:%d" % len(expect(spills, VIRTUAL))
    def history(self, case, ks):
        """Requests for a hit, for the next spill, and two generators, in every order"""
        spills = [spill(k, i) for i, k in enumerate(ks)]
        for fmt in TYPES:
            want = expect(spills, fmt)
            per = [[r for n, r in want if n == i] for i in range(len(ks))]
            for ops in itertools.product("hng", repeat=5):
                fac = factory(ms.Tree(spills), fmt)
                queue, entry, g, over = [], 0, fac.hit_generator(), False
                for i, op in enumerate(ops):
                    if op == "n":
                        # the next spill is read early: its hits follow those that are left
                        if entry >= len(ks): continue
                        fac.new_spill()
                        queue += per[entry]
                        entry += 1
                    elif over and op == "g": continue
                    else:
                        while not queue and entry < len(ks):
                            queue += per[entry]
                            entry += 1
                        try: h = fac.make_hit() if op == "h" else next(g)
                        except (BadEventError, StopIteration):
                            mc.need(not queue, "particle lost", case, fmt, ops, i)
                            over = over or op == "g"
                        else:
                            mc.need(bool(queue), "particle from nowhere", case, fmt, ops, i)
                            self.one(case, h, queue.pop(0), [fmt, ops, i])
                mc.S.add("transitions", len(ops))
        return "history:%d" % len(expect(spills, VIRTUAL))
    def tof(self, case, k):
        """Every number of signals in either counter, of every source"""
        got = set()
        for j in itertools.product(range(3), repeat=3):
            n = [(k[i], j[i]) for i in range(3)]
            tof = {name: ([1.0 + 2.5 * i + 0.25 * q for i in range(n[q][0])], [30.0 + 4.0 * i * (q + 1) for i in range(n[q][1])]) for q, name in enumerate(("Time", "RawTime", "LeadingTime"))}
            e = event(2, 0, [], [2], "none")
            e["tof"] = tof
            spills = [{"number": 3, "mc": [e], "recon": [{"tracks": e["points"], "tof": tof}]}]
            for f in range(4):
                tree = ms.Tree(spills)
                fac = MausRootReconHitFactory(tree, TOF)
                fac.fallback_on_slabs, fac.fallback_on_digits = bool(f & 1), bool(f & 2)
                want = expect(spills, TOF, -1.0, bool(f & 1), bool(f & 2))
                self.match(case, self.drain(fac), want, [n, f])
                got.add(len(want))
                mc.S.add("transitions")
        return "tof:%s:%s" % (k, sorted(got))
    def malformed(self, case):
        for f in (MausRootHitFactory, MausRootReconHitFactory):
            for bad in ("virtual_hit", "maus_root_", "maus_json_virtual_hit", "", "step") + tuple(t for t in TYPES if t not in f.file_types()):
                try: f(ms.Tree([]), bad)
                except KeyError: pass
                else: mc.need(False, "unknown type accepted", case, bad)
        for key in ("tracker", "station", "plane"):
            for v in (-1, 11):
                s = spill(2, 0)
                s["recon"][0]["tracks"][0]["points"][0][key] = v
                for fmt in (POINT, TOF):
                    try: factory(ms.Tree([s]), fmt).make_hit()
                    except ValueError: pass
                    else: mc.need(False, "bad plane accepted", case, key, v)
        return "malformed"

if __name__ == "__main__": mc.main(C40)
