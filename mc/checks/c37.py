import glob, itertools, json, os
import mc, models, iofmt
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.hit.factory import MausJsonHitFactory
from xboa.hit import BadEventError
from xboa.bunch import Bunch

VIRTUAL, PRIMARY, SPECIAL = "maus_json_virtual_hit", "maus_json_primary", "maus_json_special_virtual_hit"
FLAT = {VIRTUAL: {"station_id": "station", "particle_id": "pid", "track_id": "particle_number", "time": "t", "mass": "mass", "charge": "charge", "proper_time": "proper_time", "path_length": "path_length"},
        PRIMARY: {"particle_id": "pid", "time": "t", "energy": "energy"},
        SPECIAL: {"particle_id": "pid", "track_id": "particle_number", "time": "t", "mass": "mass", "charge": "charge", "path_length": "path_length", "energy_deposited": "e_dep"}}
VEC = {VIRTUAL: {"position": "", "momentum": "p", "b_field": "b", "e_field": "e"}, PRIMARY: {"position": "", "momentum": "p"}, SPECIAL: {"position": "", "momentum": "p"}}
# (event, particle, station, pid): events and particles shared, apart, out of order, beyond one digit
ALPHABET = [(0, 0, 1, -13), (0, 1, 3, 211), (7, 0, 1, -13), (7, 12, -2, 2212), (0, 0, 2, 11), (3, 12, 0, -211)]
TESTS = [None, lambda h: True, lambda h: False, lambda h: h["station"] == 1, lambda h: h["pid"] < 0, lambda h: h["x"] > 1.5]
VALUES = [0.0, 1.0, -2.5, 1e-12, -1e9, 0.1, 123456.789012345]

def carried(fmt): return sorted(set(FLAT[fmt].values()) | {p + c for p in VEC[fmt].values() for c in "xyz"})
def record(fmt, d):
    r = {k: d[v] for k, v in FLAT[fmt].items()}
    for k, p in VEC[fmt].items(): r[k] = {c: d[p + c] for c in "xyz"}
    return r
def tree(fmt, ds):
    """Spills by event number, events by particle number, in order of first appearance"""
    spills = {}
    for d in ds: spills.setdefault(d["event_number"], {}).setdefault(d["particle_number"], []).append(d)
    return list([list(ev.values()) for ev in spills.values()])
def image(h): return [h[k] for k in models.STORED] + [h["global_weight"], h["local_weight"]]

class C37(mc.Check):
    pid = "C37"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of short hit lists, limits, filters, file sets and recorded spill documents through the real writer and reader, against the record mapping written out"
    rule = ("every list of up to 4 (thorough 5) hits over 6 kinds sharing and not sharing event and particle number, as virtual hits and primaries; every limit with 6 test functions; "
            "every way to cut the list into two files under one glob; each carried variable over 7 values; every document of up to 4 lines out of 7 kinds of spill and other records, read as each type and as several types at once")
    assumptions = ["special virtual hits are read, not written", "a spill in which an event lacks the hits asked for is read up to that event", "the files of one glob are read in the order the file system lists them"]
    def cases(self):
        for n in range(0, 6 if self.thorough else 5):
            for ks in itertools.product(range(len(ALPHABET)), repeat=n):
                if n < 5 and (self.thorough or n < 4 or sum(ks) % 3 == 0) or n == 5 and sum(ks) % 4 == 0: yield ["list", list(ks)]
        for fmt in (VIRTUAL, PRIMARY):
            for v in carried(fmt): yield ["value", fmt, v]
        for n in range(0, 6 if self.thorough else 5):
            for ks in itertools.product(range(7), repeat=n): yield ["doc", list(ks)]
        for n in (15, 40):
            for k in range(4):
                yield ["list", [(i * (k + 1) + i // 6 + i * i // 7) % len(ALPHABET) for i in range(n)]]
                yield ["doc", [(i * (k + 1) + i // 7 + i * i // 5) % 7 for i in range(n)]]
        yield ["refuse"]
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        self.names = []
        try: return getattr(self, case[0])(case, *case[1:])
        finally:
            for n in self.names:
                if os.path.exists(n): os.remove(n)
    def name(self, s):
        n = "mj%d_%s.json" % (os.getpid(), s)
        self.names.append(n)
        return n
    def hit_of(self, case, h, d, fmt, spill, event, what):
        """A hit read back, against the particle it was written from"""
        for v in carried(fmt):
            if fmt == PRIMARY and v[0] == "p" and v != "pid" and v != "particle_number": mc.near(h[v], d[v], "wrong value", case, what, v, h[v], d[v], rel=1e-8, abs_=1e-6)
            else: mc.need(h[v] == d[v], "wrong value", case, what, v, h[v], d[v])
        mc.need(h["spill"] == spill and h["event_number"] == event, "wrong spill or event", case, what, (h["spill"], h["event_number"]), (spill, event))
        mc.near(h["mass"], d["mass"], "mass", case, what, h["mass"], d["mass"])
        mc.near(h["charge"], d["charge"], "charge", case, what, h["charge"], d["charge"])
        mc.near(h["energy"], d["energy"], "energy", case, what, h["energy"], d["energy"], rel=1e-9)
        mc.near(h["energy"] ** 2, h["p"] ** 2 + h["mass"] ** 2, "mass shell", case, what, h["energy"], h["p"], rel=1e-9)
        mc.need(h["local_weight"] == 1.0 and h["global_weight"] == 1.0, "weights", case, what, h["local_weight"], h["global_weight"])
        for v in models.STORED:
            if v not in carried(fmt) and v not in ("spill", "event_number", "mass", "charge", "energy", "local_weight", "global_weight") and v != "weight":
                mc.need(h[v] == 0, "value from nowhere", case, what, v, h[v])
    def particles(self, ks):
        w = models.World()
        ds = []
        for i, k in enumerate(ks):
            a = ALPHABET[k]
            d = dict(w.new(event_number=a[0], particle_number=a[1], station=a[2], pid=a[3], x=float(i), y=-0.5 * i, z=100.0 * k, px=0.25 * i, py=-3.0, pz=100.0 + k, t=0.125 * k,
                           bx=0.001 * i, bz=0.004, ey=1e-5 * k, proper_time=2.0 * i, path_length=3.0 * k))
            d = dict(iofmt.on_shell(d))
            d["charge"] = iofmt.CHARGE[a[3]]
            ds.append(d)
        return ds
    def list(self, case, ks):
        ds = self.particles(ks)
        keep = {k: [d[k] for d in ds] for k in models.STORED}
        hits = [Hit.new_from_dict(dict(d)) for d in ds]
        before = [image(h) for h in hits]
        obs = []
        for fmt in (VIRTUAL, PRIMARY):
            f = self.name(fmt)
            spills = tree(fmt, ds)
            clash = fmt == PRIMARY and any(len(ev) > 1 for s in spills for ev in s)
            mc.S.add("transitions")
            if clash:
                try: Hit.write_list_builtin_formatted(list_(hits), fmt, f)
                except IOError:
                    obs.append("clash")
                    continue
                finally: mc.need([image(h) for h in hits] == before, "hits changed by writing", case, fmt)
                mc.need(False, "two primaries of one event written", case)
            if len(ks) % 2: Hit.write_list_builtin_formatted(hits, fmt, f)
            else: Bunch.new_from_hits(hits).hit_write_builtin(fmt, f)
            mc.need([image(h) for h in hits] == before, "hits changed by writing", case, fmt)
            docs = [json.loads(line) for line in open(f).read().splitlines()]
            leaf = "virtual_hits" if fmt == VIRTUAL else "primary"
            want = [{"maus_event_type": "Spill", "spill_number": i, "mc_events": [{leaf: [record(fmt, d) for d in ev] if fmt == VIRTUAL else record(fmt, ev[0])} for ev in s]} for i, s in enumerate(spills)]
            mc.need(docs == want, "file", case, fmt, docs, want)
            flat = [(d, i, j) for i, s in enumerate(spills) for j, ev in enumerate(s) for d in ev]
            # primaries carry no particle number and no station
            def check(got, part, what):
                mc.need(len(got) == len(part), "number of hits", case, what, len(got), len(part))
                for h, (d, i, j) in zip(got, part): self.hit_of(case, h, d, fmt, i, j, what)
            alone = Bunch.new_from_read_builtin(fmt, f)
            check(alone, flat, [fmt, "all"])
            for t, fn in enumerate(TESTS):
                sel = [x for x, h in zip(flat, alone) if fn is None or fn(h)]
                for limit in range(-1, len(ks) + 2):
                    got = Bunch.new_from_read_builtin(fmt, f, fn, limit)
                    check(got, sel if limit < 0 else sel[:limit], [fmt, "test", t, "limit", limit])
                    mc.S.add("transitions")
            with open(f) as fin:
                fac, got = MausJsonHitFactory(fin, fmt), []
                while True:
                    try: got.append(fac.make_hit())
                    except BadEventError: break
                check(got, flat, [fmt, "factory"])
            # the same list in two files
            if len(ks) <= 3:
                for cut in range(1, len(ks)):
                    parts = [ds[:cut], ds[cut:]]
                    if fmt == PRIMARY and any(len(ev) > 1 for p in parts for s in tree(fmt, p) for ev in s): continue
                    names = [self.name("part%d" % i) for i in range(2)]
                    for n, p in zip(names, (hits[:cut], hits[cut:])): Hit.write_list_builtin_formatted(p, fmt, n)
                    pattern = "mj%d_part*.json" % os.getpid()
                    order = glob.glob(pattern)
                    flat2 = [(d, i, j) for n in order for i, s in enumerate(tree(fmt, parts[names.index(n)])) for j, ev in enumerate(s) for d in ev]
                    for fn in (TESTS[0], TESTS[4]):
                        sel = [x for x in flat2 if fn is None or x[0]["pid"] < 0]
                        for limit in range(-1, len(ks) + 2):
                            check(Bunch.new_from_read_builtin(fmt, pattern, fn, limit), sel if limit < 0 else sel[:limit], [fmt, "two files", cut, limit])
                            mc.S.add("transitions")
                    for n in names: os.remove(n)
            obs.append([len(s) for s in spills])
        return json.dumps(obs)
    def value(self, case, fmt, v):
        """Each value of each variable goes there and back"""
        for x in VALUES:
            d = self.particles([0])[0]
            if v in models.INTS:
                if v == "pid":
                    x = {0: -13, 1: 13, 2: 211, 3: -211, 4: 2212, 5: 11, 6: 22}[VALUES.index(x)]
                else: x = int(x)
            if v == "mass" and x < 0: continue
            if v == "energy": continue
            d[v] = x
            if v == "pid": d["mass"], d["charge"] = iofmt.MASS.get(abs(x), 0.0), iofmt.CHARGE.get(x, 0.0)
            if v == "pid" and x == 22: d["mass"] = d["charge"] = 0.0
            if v != "energy": d["energy"] = (d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2 + d["mass"] ** 2) ** 0.5
            h = Hit.new_from_dict(dict(d))
            f = self.name("value")
            Hit.write_list_builtin_formatted([h], fmt, f)
            mc.S.add("transitions")
            got = Bunch.new_from_read_builtin(fmt, f)
            mc.need(len(got) == 1, "number of hits", case, v, x, len(got))
            self.hit_of(case, got[0], d, fmt, 0, 0, [fmt, v, x])
        return "value"
    def doc(self, case, ks):
        """Documents as other programs write them: several kinds of record, in every order"""
        lines, want = [], {VIRTUAL: [], PRIMARY: [], SPECIAL: []}
        n = [0]
        def d():
            n[0] += 1
            x = self.particles([n[0] % 6])[0]
            x.update(x=float(n[0]), particle_number=n[0] + 3, e_dep=0.5 * n[0])
            return x
        for i, k in enumerate(ks):
            number = [4, 4, 0, 11, 7][i % 5]
            def event(j, nv, ns, prim=True):
                e = {"virtual_hits": [], "special_virtual_hits": [], "other": [1, {"virtual_hits": 3}]}
                for fmt, key, m in ((VIRTUAL, "virtual_hits", nv), (SPECIAL, "special_virtual_hits", ns)):
                    for _ in range(m):
                        x = d()
                        want[fmt].append((x, number, j))
                        r = record(fmt, x)
                        r["unknown"] = 12
                        e[key].append(r)
                if prim:
                    x = d()
                    want[PRIMARY].append((x, number, j))
                    e["primary"] = record(PRIMARY, x)
                return e
            if k == 0:
                # records of other kinds are passed over, whatever they hold
                x = self.particles([1])[0]
                x["e_dep"] = 1.0
                ev = {"virtual_hits": [record(VIRTUAL, x)], "special_virtual_hits": [record(SPECIAL, x)], "primary": record(PRIMARY, x)}
                doc = {"maus_event_type": ["JobHeader", "RunHeader", "JobFooter", "RunFooter", "Image", "spill", ""][i % 7], "spill_number": number, "mc_events": [ev] if i % 3 else [{"virtual_hits": [{}]}]}
            elif k == 1: doc = {"spill_number": 3}
            elif k == 2: doc = {"maus_event_type": "Spill", "spill_number": number}
            elif k == 3: doc = {"maus_event_type": "Spill", "spill_number": number, "mc_events": []}
            elif k == 4: doc = {"maus_event_type": "Spill", "spill_number": number, "mc_events": [event(0, 2, 1)], "recon_events": []}
            elif k == 5: doc = {"maus_event_type": "Spill", "spill_number": number, "mc_events": [event(0, 0, 0), event(1, 1, 2), event(2, 1, 0)]}
            elif k == 6: doc = {"mc_events": [event(0, 1, 0, False)], "maus_event_type": "Spill", "spill_number": number}
            lines.append(json.dumps(doc))
        f = self.name("doc")
        # the last line with and without its end
        with open(f, "w") as out: out.write("\n".join(lines) + ("\n" if lines and sum(ks) % 2 else ""))
        def check(got, flat, what):
            mc.need(len(got) == len(flat), "number of hits", case, what, len(got), len(flat))
            for h, (fmt, (x, i, j)) in zip(got, flat): self.hit_of(case, h, x, fmt, i, j, what)
        types = [VIRTUAL, PRIMARY, SPECIAL]
        for fmt in types:
            check(Bunch.new_from_read_builtin(fmt, f), [(fmt, x) for x in want[fmt]], fmt)
            mc.S.add("transitions")
        everything = [(t, x) for t in types for x in want[t]]
        check(Bunch.read_maus_json_file(f), everything, "all types")
        for sub in ([SPECIAL, VIRTUAL], [PRIMARY], []):
            check(Bunch.read_maus_json_file(f, list_of_maus_types=list(sub)), [(t, x) for t in sub for x in want[t]], sub)
        for limit in (0, 1, 2, 5): check(Bunch.read_maus_json_file(f, limit), everything[:limit], limit)
        return "doc:%s" % [len(want[t]) for t in types]
    def refuse(self, case):
        h = Hit.new_from_dict(dict(self.particles([0])[0]))
        before = image(h)
        for fmt in (VIRTUAL, PRIMARY):
            f = self.name("single")
            with open(f, "w") as out:
                try: h.write_builtin_formatted(fmt, out)
                except IOError: pass
                else: mc.need(False, "a single MAUS hit written", case, fmt)
            mc.need(image(h) == before, "hit changed", case, fmt)
        for fmt in ("maus_json_nothing", "icool_for009", ""):
            try: MausJsonHitFactory(open(os.devnull), fmt)
            except KeyError: continue
            mc.need(False, "unknown type accepted", case, fmt)
        return "refuse"
list_ = list

if __name__ == "__main__": mc.main(C37)
