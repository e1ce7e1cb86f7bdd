import io, itertools, json, os
import mc, iofmt
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit, BadEventError
from xboa.hit.factory import BuiltinHitFactory, UserHitFactory, MausJsonHitFactory
from xboa.bunch import Bunch

UCOLS = ["event_number", "x:cm", "px:GeV/c", "pid", "-", "t:ns"]
FORMATS = iofmt.FORMATS + ["user"]
KINDS = ["a", "b", "short", "word", "blank", "pid"]
DOCS = ["empty", "header", "spill0", "spill1", "spill2", "nomc", "quiet"]
TYPES = ["virtual_hit", "primary", "special_virtual_hit"]
OPS = ["gen1", "gen2", "make"]
END, BAD = "end", "bad"

def vec(a, b, c): return {"x": a, "y": b, "z": c}
def event(k, n_virtual, n_special):
    """One mc_event; k numbers what is in it."""
    v = [{"position": vec(1.0 + i, k, 3.0), "momentum": vec(0.5 * k, i, 100.0 + k), "b_field": vec(0.0, 0.001, 0.0), "e_field": vec(0.0, 0.0, 0.0), "station_id": i, "particle_id": [-13, 211][i % 2],
          "track_id": 10 * k + i, "time": 7.0 + k, "mass": [105.658, 139.57][i % 2], "charge": 1.0, "proper_time": 0.0, "path_length": 0.0} for i in range(n_virtual)]
    s = [{"position": vec(-1.0 - i, k, 2.0), "momentum": vec(1.0, 0.5 * k, 50.0 + i), "particle_id": 2212, "track_id": 20 * k + i, "time": 3.0 * k, "mass": 938.272, "charge": 1.0, "path_length": 0.0, "energy_deposited": 0.5 * i} for i in range(n_special)]
    return {"virtual_hits": v, "special_virtual_hits": s, "primary": {"position": vec(k, 0.0, 0.0), "momentum": vec(0.0, 1.0, 200.0 + k), "particle_id": -13, "time": float(k), "energy": 400.0 + k}}
def doc(kind, n):
    if kind == "empty": return {}
    if kind == "header": return {"maus_event_type": "JobHeader", "mc_events": [event(99, 1, 1)], "spill_number": n}
    d = {"maus_event_type": "Spill", "spill_number": 5 + n, "mc_events": []}
    if kind == "spill1": d["mc_events"] = [event(1 + 4 * n, 2, 1)]
    if kind == "spill2": d["mc_events"] = [event(2 + 4 * n, 1, 0), event(3 + 4 * n, 0, 2)]
    if kind == "quiet": d["mc_events"] = [event(4 + 4 * n, 0, 0)]
    if kind == "nomc": del d["mc_events"]
    return d
def expect(docs, typ):
    """What the hits of one type in a document list hold."""
    out = []
    for d in docs:
        if d.get("maus_event_type") != "Spill": continue
        for ev, e in enumerate(d.get("mc_events", [])):
            for o in [e["primary"]] if typ == "primary" else e[typ + "s"]:
                w = {"spill": d["spill_number"], "event_number": ev, "pid": o["particle_id"], "t": o["time"], "x": o["position"]["x"], "y": o["position"]["y"], "z": o["position"]["z"]}
                if typ == "primary": w["energy"] = o["energy"]
                else: w.update(particle_number=o["track_id"], px=o["momentum"]["x"], py=o["momentum"]["y"], pz=o["momentum"]["z"], mass=o["mass"], charge=o["charge"])
                if typ == "virtual_hit": w["station"] = o["station_id"]
                if typ == "special_virtual_hit": w["e_dep"] = o["energy_deposited"]
                out.append(w)
    return out

class C39(mc.Check):
    pid = "C39"
    level = "model_checking"
    technique = "exhaustive enumeration of short sources and of the histories of requests to their factory (two generators and single reads, interleaved), real factories against a cursor model"
    rule = ("every file of up to 4 lines over 6 kinds of good and bad line in 5 formats and a user format, every sequence of up to 4 (thorough 5) documents over 7 kinds for 3 types; every "
            "history of requests two longer than the particles there are (files of up to 3 lines, documents up to 2), the generator alone for all; whole-file MAUS reads for every choice and order of types and every limit")
    assumptions = ["in user formats particle types are in the particle table", "documents are valid json and their hits complete"]
    def cases(self):
        for fmt in range(len(FORMATS)):
            for n in range(0, 5):
                for ks in itertools.product(range(len(KINDS)), repeat=n):
                    if fmt == 5 and 5 in ks: continue
                    yield ["line", fmt, list(ks)]
        for n in range(0, 6 if self.thorough else 5):
            for ks in itertools.product(range(len(DOCS)), repeat=n): yield ["json", list(ks)]
        for n in (30, 100):
            for k in range(5):
                for fmt in range(len(FORMATS)):
                    yield ["line", fmt, [(0, 0, 1, 2, 0, 3, 1, 4, 0, 5)[(i * (k + 1) + i // 5 + i * i // 7) % (9 if fmt == 5 else 10)] for i in range(n)]]
                if n < 100: yield ["json", [(i * (k + 1) + i // 7 + i * i // 5) % len(DOCS) for i in range(n)]]
        yield ["formats"]
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        Hit.set_g4bl_unit("mm")
        return getattr(self, case[0])(case, *case[1:])
    def same(self, case, h, want, what):
        mc.need(type(h) is Hit, "not-a-hit", case, what, type(h))
        for k, v in want.items():
            if isinstance(v, int) and k in ("spill", "event_number", "pid", "particle_number", "station"): mc.need(h[k] == v, "wrong-particle", case, what, k, h[k], "want", v)
            else: mc.near(h[k], v, "wrong-particle", case, what, k, abs_=1e-9)
    def drive(self, case, make, items, kind):
        """items: particles (a dict) and unreadable ones (BAD) as they come; make() gives a fresh factory."""
        good = [x for x in items if x is not BAD]
        out = list(itertools.islice(make().hit_generator(), len(items) + 3))
        mc.need(len(out) == len(good), "number-of-particles", case, "generator gave", len(out), "source has", len(good))
        for k, (h, w) in enumerate(zip(out, good)): self.same(case, h, w, ["generator", k])
        mc.S.add("transitions", len(out) + 1)
        if kind > (3 if case[0] == "line" else 2): return len(good)
        n = 0
        for ops in itertools.product(range(3), repeat=min(len(items) + 2, 6)):
            fac = make()
            gens = [fac.hit_generator(), fac.hit_generator()]
            done = [False, False]
            at = 0
            for step, op in enumerate(ops):
                n += 1
                if op == 2:
                    want = items[at] if at < len(items) else END
                    at = min(at + 1, len(items))
                    try: got = fac.make_hit()
                    except EOFError: got = END
                    except BadEventError: got = BAD if case[0] == "line" else END
                else:
                    if done[op]: want = END
                    else:
                        while at < len(items) and items[at] is BAD: at += 1
                        want = items[at] if at < len(items) else END
                        at = min(at + 1, len(items))
                        done[op] = want is END
                    try: got = next(gens[op])
                    except StopIteration: got = END
                where = [OPS[o] for o in ops[:step + 1]]
                mc.need(isinstance(want, dict) == isinstance(got, Hit) and (isinstance(want, dict) or want == got), "sequence", case, where, "got", str(got), "want", want)
                if isinstance(want, dict): self.same(case, got, want, where)
                mc.seen([case, at, done])
        mc.S.add("transitions", n)
        return len(good)
    # -- files read line by line
    def line_text(self, fmt, kind, n):
        cols = iofmt.COLS[fmt] if fmt != "user" else UCOLS
        words, d = [], {}
        base = {"a": -13, "b": 211}.get(kind, -13)
        for j, c in enumerate(cols):
            name = c.split(":")[0]
            if name == "pid":
                p = base
                if fmt.startswith("icool"): p = iofmt.ICOOL[base]
                if fmt.startswith("mars"): p = iofmt.MARS[base]
                if kind == "pid": p = 77
                words.append(str(p))
            elif name in iofmt.INTS: words.append(str(n + 1 if name == "event_number" else j + n))
            elif name == "-": words.append("0")
            else: words.append("%g" % (0.5 * j + n + (0.25 if kind == "b" else 0)))
        if kind == "short": words = words[:-1]
        if kind == "word": words[1] = "oops"
        if kind == "blank": words = []
        return " ".join(words) + "\n"
    def wanted(self, fmt, line):
        if fmt != "user":
            d = iofmt.parse_line(fmt, line)
            if d is None: return BAD
            d.pop("energy", None)
            return {k: v for k, v in d.items() if k not in ("px", "py", "pz") or "mars" not in fmt}
        w = line.split()
        if len(w) != len(UCOLS): return BAD
        try: return {"event_number": int(w[0]), "x": float(w[1]) * 10, "px": float(w[2]) * 1000, "pid": int(w[3]), "t": float(w[5])}
        except ValueError: return BAD
    def line(self, case, f, ks):
        fmt = FORMATS[f]
        lines = [self.line_text(fmt, KINDS[k], n) for n, k in enumerate(ks)]
        items = [self.wanted(fmt, l) for l in lines]
        text = "".join(lines)
        def make(handle=None):
            handle = handle or io.StringIO(text)
            if fmt != "user": return BuiltinHitFactory(fmt, handle)
            return UserHitFactory(["event_number", "x", "px", "pid", "", "t"], {"x": "cm", "px": "GeV/c", "t": "ns", "": ""}, handle, "energy")
        got = self.drive(case, make, items, len(ks))
        if len(ks) == 4 and f % 2 == 0:
            name = "c39_%d" % os.getpid()
            try:
                with open(name, "w") as g: g.write(text)
                with open(name) as g: out = list(make(g).hit_generator())
                good = [x for x in items if x is not BAD]
                mc.need(len(out) == len(good), "number-of-particles", case, "file", len(out), len(good))
                for k, (h, w) in enumerate(zip(out, good)): self.same(case, h, w, ["file", k])
            finally:
                if os.path.exists(name): os.remove(name)
        return ["line", fmt, got]
    # -- MAUS documents
    def json(self, case, ks):
        docs = [doc(DOCS[k], n) for n, k in enumerate(ks)]
        text = "".join(json.dumps(d) + "\n" for d in docs)
        want = {t: expect(docs, t) for t in TYPES}
        for t in TYPES:
            for old in (False, True):
                if old and t not in ("virtual_hit", "primary"): continue
                make = lambda: MausJsonHitFactory(io.StringIO(text), ("maus_" if old else "maus_json_") + t)
                self.drive(case, make, want[t], len(ks) + old)
            if sum(d.get("maus_event_type") == "Spill" for d in docs) == 1:
                out = Hit.new_list_from_maus_json("maus_json_" + t, io.StringIO(text))
                mc.need(isinstance(out, list) and len(out) == len(want[t]), "new-list", case, t, out)
                for k, (h, w) in enumerate(zip(out, want[t])): self.same(case, h, w, ["new_list", t, k])
        if len(ks) <= 3:
            name = "c39_%d" % os.getpid()
            try:
                with open(name, "w") as g: g.write(text)
                for r in range(1, 4):
                    for types in itertools.permutations(TYPES, r):
                        every = [w for t in types for w in want[t]]
                        for limit in [-1] + list(range(len(every) + 2)):
                            out = Bunch.read_maus_json_file(name, limit, ["maus_json_" + t for t in types])
                            sel = every if limit < 0 else every[:limit]
                            mc.need(len(out) == len(sel), "whole-file", case, types, limit, len(out), len(sel))
                            for k, (h, w) in enumerate(zip(out, sel)): self.same(case, h, w, ["whole file", types, k])
                            mc.S.add("transitions")
            finally:
                if os.path.exists(name): os.remove(name)
        return ["json"] + [len(want[t]) for t in TYPES]
    def formats(self, case):
        n = 0
        for make in (lambda: BuiltinHitFactory("nonsense", io.StringIO()), lambda: MausJsonHitFactory(io.StringIO(), "maus_json_nonsense"), lambda: MausJsonHitFactory(io.StringIO(), "virtual_hit"),
                     lambda: UserHitFactory(["nonsense"], {"nonsense": "mm"}, io.StringIO(), ""), lambda: UserHitFactory(["x"], {}, io.StringIO(), ""), lambda: UserHitFactory(["x"], {"x": "furlong"}, io.StringIO(), "")):
            try: make()
            except KeyError: n += 1; continue
            mc.need(False, "should-refuse", case, n)
        return n

if __name__ == "__main__": mc.main(C39)
