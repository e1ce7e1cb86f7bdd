import itertools, operator
import mc, models
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

IDS = [(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (2, 2, 2), (0, 0, 0), (-1, 5, 3)]
TESTS = [None, ["spill", "event_number", "particle_number"], ["event_number"], "event_number", ["particle_number", "spill"], ["station"],
         ["event_number", "x"], "x", ["pid", "event_number", "station"]]
COMP = [operator.lt, operator.le, operator.eq, operator.ne, operator.ge, operator.gt]
SEL = {"x": [-1.0, 0.0, 0.5, 2.0], "station": [0, 1, 3], "r_squared": [0.0, 1.0, 3.0], "pid": [-13, 0, 11], "event_number": [1, 2],
       "weight": [0.0, 0.5, 1.0], "amplitude x": [0.0, 1e9], "ct": [0.0, 100.0], "eventNumber": [1]}

class C12(mc.Check):
    pid = "C12"
    level = "model_checking"
    technique = "exhaustive enumeration of pairs of bunches, selections and removals against list models"
    rule = ("transmission cuts of all pairs of bunches of up to 3 and 3 hits (thorough: 3 and 4) over 7 identities, in every order with repeats, "
            "by 9 choices of identity variables, local and global; hits with equal data followed by object; selection and conditional removal over all bunches of up "
            "to 4 hits, every variable, comparison and threshold, including removal in standard deviations and by several "
            "variables")
    assumptions = ["identity variables differ by more than the floating-point tolerance or are equal"]
    def cases(self):
        n = 3
        subs = [list(c) for k in range(0, n + 1) for c in itertools.product(range(7) if k < 3 else (range(5) if self.thorough else (0, 1, 2, 4)), repeat=k)]
        refs = [list(c) for k in range(0, (5 if self.thorough else 4)) for c in itertools.product(range(7) if k < 2 else range(5 if k < 4 else 3), repeat=k)]
        for a in subs:
            for m, r in enumerate(refs):
                if len(a) == 3 and len(r) >= 3 and not self.thorough and (sum(a) + m) % 9: continue
                yield ["trans", a, r]
        for k in range(0, 5 if not self.thorough else 7):
            for c in itertools.product(range(3), repeat=k): yield ["twins", list(c)]
        for n, m in ((12, 5), (40, 3), (40, 70), (150, 20), (20, 300)):
            for a in (1, 3): yield ["trans", [(a * k + k // 5) % 7 for k in range(n)], [(k * k // 2 + k // 3) % (7 - a) for k in range(m)]]
        for n in (12, 40, 150): yield ["twins", [(k + k // 4) % 3 for k in range(n)]]
        for n in (12, 40, 120): yield ["sel", [(3 * k + k // 7) % 5 for k in range(n)]]
        for k in range(27): yield ["carry", k]
        for k in range(125): yield ["digits", k]
        pal = range(5)
        for k in range(0, 4 if not self.thorough else 5):
            for c in itertools.product(pal, repeat=k): yield ["sel", list(c)]
        for c in itertools.combinations(pal, 4): yield ["sel", list(c)]
    def make(self, ids, w, ref=False):
        b = Bunch()
        for k, i in enumerate(ids):
            s, e, p = IDS[i]
            kw = dict(spill=s, event_number=e, particle_number=p, station=(i + (k if not ref else 0)) % 3, x=float(i % 3) + 0.25, y=float(k),
                      pid=[-13, 11][i % 2], local_weight=[1.0, 0.5, 2.0][k % 3])
            b.append(Hit.new_from_dict(dict(kw)))
            d = w.new(**kw)
            d["n"] = (ref, k)
        return b
    def run_case(self, case):
        if case[0] in ("carry", "digits"): return self.distinct(case)
        if case[0] == "twins": return self.twins(case)
        return self.trans(case) if case[0] == "trans" else self.select(case)
    def compare(self, case, b, ds, w, what):
        mc.need(len(b) == len(ds), "length", case, what)
        for i, d in enumerate(ds):
            for v in ("local_weight", "global_weight", "x", "y", "station", "pid", "spill", "event_number", "particle_number"):
                mc.need(b[i][v] == w.get(d, v), "value", case, what, "hit", i, v, "got", b[i][v], "want", w.get(d, v))
    def distinct(self, case):
        """A single partner among identities whose numbers run over into one another if packed into a word or a text."""
        if case[0] == "carry":
            vals = sorted(set(s * b ** k for b, n in ((2, 31), (10, 10)) for k in range(n) for s in (1, -1)) | {0, 2**31 - 1, -2**31})
            ids = sorted(set(tuple(i[j:] + i[:j]) for v in vals for p in itertools.product((0, 1, -1), repeat=2) for j in range(3) for i in [[v] + list(p)]))
            ref = list(itertools.product((0, 1, -1), repeat=3))[case[1]]
        else:
            ids = list(itertools.product((1, 2, 12, 11, 121), repeat=3))
            ref = ids[case[1]]
        Hitcore.set_weight_context(WeightContext())
        keys = ("spill", "event_number", "particle_number")
        b = Bunch()
        for i in ids: b.append(Hit.new_from_dict(dict(zip(keys, i))))
        r = Bunch()
        r.append(Hit.new_from_dict(dict(zip(keys, ref))))
        b.transmission_cut(r, False, list(keys))
        for i, hit in zip(ids, b): mc.need(hit["local_weight"] == (1.0 if i == ref else 0.0), "distinct-identity", case, "reference", ref, "hit", i, hit["local_weight"])
        mc.seen([case])
        return [case, len(ids)]
    def twins(self, case):
        """Hits with the same data are different hits: followed by object, not by value."""
        def build():
            Hitcore.set_weight_context(WeightContext())
            b = Bunch()
            for s in case[1]: b.append(Hit.new_from_dict(dict(x=float(s), station=s, event_number=1)))
            return b, list(b.hits())
        out = []
        for c in COMP:
            for var, t in (("x", 1.0), ("station", 1), ("r", 1.0), ("event_number", 1)):
                b, h = build()
                keep = [x for x in h if not c(x[var], t)]
                got = b.get_hits(var, t, c)
                mc.need([id(x) for x in got] == [id(x) for x in h if c(x[var], t)], "twins-get-hits", case, var, t, c.__name__, len(got))
                b.conditional_remove({var: t}, c)
                mc.need([id(x) for x in b] == [id(x) for x in keep], "twins-remove", case, var, t, c.__name__, len(b), len(keep))
                mc.need(abs(b.bunch_weight() - len(keep)) < 1e-12, "twins-weight", case)
                if keep: mc.near(b.mean(["x"])["x"], sum(x["x"] for x in keep) / len(keep), "twins-mean", case)
                out.append(len(keep))
                mc.S.add("transitions")
        b, h = build()
        r = Bunch()
        for x in h[:1]: r.append(x)
        b.transmission_cut(r, False, ["station"])
        mc.need([x["local_weight"] for x in b] == [1.0 if s == case[1][0] else 0.0 for s in case[1]], "twins-transmission", case)
        mc.need([id(x) for x in b] == [id(x) for x in h], "twins-order", case)
        mc.seen(case)
        return [case, out] if case[1] else None
    def trans(self, case):
        out = []
        for t in TESTS:
            for glob in (False, True):
                ctx = WeightContext()
                Hitcore.set_weight_context(ctx)
                w = models.World()
                b, r = self.make(case[1], w), self.make(case[2], w, True)
                mine = [d for d in w.hits if not d["n"][0]]
                ref = [d for d in w.hits if d["n"][0]]
                for i in set(case[1]):
                    if i % 2:
                        w.weights[IDS[i]] = 0.25
                        ctx.set_weight(0.25, *IDS[i])
                names = [t] if isinstance(t, str) else (t or TESTS[1])
                partners = set(tuple(d[v] for v in names) for d in ref)
                lost = [d for d in mine if tuple(d[v] for v in names) not in partners]
                for d in lost: w.set(d, "global_weight" if glob else "local_weight", 0.0)
                if t is None: b.transmission_cut(r, glob)
                elif isinstance(t, str): b.transmission_cut(r, glob, t)
                else:
                    arg = list(t)
                    b.transmission_cut(r, global_cut=glob, test_variable=arg)
                    mc.need(arg == t, "argument", case)
                # the reference bunch is not touched, except that a global weight is shared
                self.compare(case, b, mine, w, (t, glob))
                self.compare(case, r, ref, w, ("reference", t, glob))
                mc.S.add("transitions")
                out.append(sorted(d["n"][1] for d in lost))
        # repeating the cut against itself removes nothing
        Hitcore.set_weight_context(WeightContext())
        w = models.World()
        b = self.make(case[1], w)
        b.transmission_cut(b)
        self.compare(case, b, w.hits, w, "self")
        mc.seen([case[1], case[2]])
        return [case[1], out]
    PAL = [dict(x=-1.0, y=0.5, station=1, pid=-13, event_number=1, t=-1.0), dict(x=0.0, y=0.0, station=0, pid=0, event_number=2, t=0.0, local_weight=0.5),
           dict(x=0.5, y=1.0, station=3, pid=11, event_number=1, t=0.5, particle_number=2), dict(x=2.0, px=1.0, y=-1.0, station=1, pid=11, event_number=3, t=2.0),
           dict(x=0.5, px=-3.0, y=1.0, station=3, pid=11, event_number=1, t=0.5, local_weight=0.0)]
    def build(self, sel):
        Hitcore.set_weight_context(WeightContext())
        w, b = models.World(), Bunch()
        for k, s in enumerate(sel):
            kw = dict(self.PAL[s], spill=k)
            b.append(Hit.new_from_dict(dict(kw)))
            w.new(**kw)
        return w, b
    def amp(self, b, w, i):
        return b.get_hit_variable(b[i], "amplitude x")
    def select(self, case):
        sel = case[1]
        out = []
        for var in SEL:
            w, b = self.build(sel)
            amp = None
            if var == "amplitude x":
                try: amp = b.list_get_hit_variable([var])[0]
                except Exception: continue
                if any(a != a for a in amp): continue
            val = lambda i: amp[i] if amp is not None else w.get(w.hits[i], var)
            for t in SEL[var]:
                for c in COMP:
                    keep = [i for i in range(len(sel)) if c(val(i), t)]
                    got = b.get_hits(var, t, c)
                    mc.need([h["spill"] for h in got] == keep, "get-hits", case, var, t, c.__name__, [h["spill"] for h in got], keep)
                    mc.need(all(any(h is x for x in b.hits()) for h in got), "get-hits-identity", case)
                    if c is operator.eq:
                        mc.need([h["spill"] for h in b.get_hits(var, t)] == keep, "get-hits-default", case, var, t)
                    self.compare(case, b, w.hits, w, ("get_hits", var))
                    if var == "amplitude x" and c in (operator.eq, operator.ne): continue
                    w2, b2 = self.build(sel)
                    arg = {var: t}
                    b2.conditional_remove(arg, c)
                    mc.need(arg == {var: t}, "argument", case)
                    left = [d for i, d in enumerate(w2.hits) if i not in keep]
                    self.compare(case, b2, left, w2, ("remove", var, t, c.__name__))
                    mc.near(b2.bunch_weight(), sum(w2.get(d, "weight") for d in left), "weight", case)
                    if sum(d["local_weight"] for d in left) > 1e-9:
                        mc.near(b2.mean(["x"])["x"], sum(d["x"] * d["local_weight"] for d in left) / sum(d["local_weight"] for d in left),
                                "mean-after", case)
                    out.append(len(left))
                    mc.S.add("transitions", 2)
        # several variables in turn
        for c in (operator.ge, operator.lt):
            for u, v in itertools.permutations(("x", "station", "r_squared"), 2):
                w, b = self.build(sel)
                b.conditional_remove({u: 0.5, v: 1}, c)
                left = [d for d in w.hits if not c(w.get(d, u), 0.5) and not c(w.get(d, v), 1)]
                self.compare(case, b, left, w, (u, v, c.__name__))
        # in standard deviations
        for n in (0.75, 1.3):
            for u, c in itertools.product(("x", "t", "r"), (operator.gt, operator.lt)):
                w, b = self.build(sel)
                tot = sum(w.get(d, "weight") for d in w.hits)
                if abs(tot) < 1e-9: continue
                m = sum(w.get(d, "weight") * w.get(d, u) for d in w.hits) / tot
                t = n * max(0.0, sum(w.get(d, "weight") * (w.get(d, u) - m) ** 2 for d in w.hits) / tot) ** 0.5
                if any(abs(w.get(d, u) - t) < 1e-6 for d in w.hits): continue
                b.conditional_remove({u: n}, c, True)
                self.compare(case, b, [d for d in w.hits if not c(w.get(d, u), t)], w, ("sigma", u, n))
        mc.seen(sel)
        return [sel, out] if sel else None

if __name__ == "__main__":
    mc.main(C12)
