import copy, itertools, json, pickle
import mc, models
mc.block_root()
import numpy
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Hitcore, WeightContext

MECH = ["deepcopy", "method", "dict", "repr", "str", "bunch", "bunchcopy", "bunchmethod", "list"] + \
       ["pickle%d" % p for p in range(pickle.HIGHEST_PROTOCOL + 1)]
FLOATS = [0.0, -0.0, 1.0, -2.25, 1.0 / 3, 1e-300, -1e300, 123456789.12345678, 5e-324, 0.1 + 0.2]
INTV = [0, 1, -1, 2**31 - 1, -2**31, 211]
GRID = list(itertools.product((0, 1, 2), repeat=3))

def duplicate(hit, mech):
    if mech == "deepcopy": return copy.deepcopy(hit)
    if mech == "method": return hit.deepcopy()
    if mech == "dict": return Hit.new_from_dict(hit.dict_from_hit())
    if mech == "repr": return eval(repr(hit), {"Hit": Hit})
    if mech == "str": return eval(str(hit), {"Hit": Hit})
    if mech == "bunch": return Bunch.new_from_hits([hit])[0]
    if mech == "bunchcopy":
        b = Bunch()
        b.append(hit)
        return copy.deepcopy(b)[0]
    if mech == "bunchmethod":
        b = Bunch()
        b.append(hit)
        return b.deepcopy()[0]
    if mech == "list": return copy.deepcopy({"a": [hit]})["a"][0]
    return pickle.loads(pickle.dumps(hit, int(mech[6:])))

OPS = [["copy", 0, "deepcopy"], ["copy", 1, "pickle2"], ["copy", 0, "dict"], ["copy", 1, "repr"], ["copy", -1, "bunch"],
       ["set", 0, "x", 4.0], ["set", -1, "pid", 13], ["set", -1, "event_number", 1], ["set", 0, "spill", 2],
       ["set", 0, "global_weight", 0.0], ["set", -1, "global_weight", 3.0], ["set", 1, "local_weight", 0.0],
       ["set", -1, "px", -7.0], ["clear"], ["set", 1, "particle_number", 2]]

class C06(mc.Check):
    pid = "C06"
    level = "model_checking"
    technique = "exhaustive exploration of states, copy mechanisms and edit histories against a reference model"
    rule = ("every copy mechanism (deep copies, dict, printed form, pickle protocols, bunch copies) on every hit of "
            "a value lattice and an identity/weight lattice with a full table of bystander weights; all histories up to a "
            "depth of copies and edits; all small bunches with and without covariances set")
    def cases(self):
        for m in MECH:
            for v in models.DOUBLES:
                for x in FLOATS: yield ["value", m, v, x]
            for v in models.INTS:
                for x in INTV: yield ["value", m, v, x]
            for ident in GRID:
                for gw in (None, 0.0, 2.5):
                    for lw in (0.0, 1.0, -3.0): yield ["weight", m, list(ident), gw, lw]
        for n in (1, 2, 3) + ((4,) if self.thorough else ()):
            for ops in itertools.product(range(len(OPS)), repeat=n): yield ["hist", list(ops)]
        if not self.thorough:
            for ops in itertools.product([0, 1, 4, 5, 7, 8, 9, 10], repeat=4): yield ["hist", list(ops)]
        for n in (10, 100, 700):
            for how in ["copy", "method", "new"] + ["pickle%d" % k for k in range(pickle.HIGHEST_PROTOCOL + 1)]: yield ["many", n, how]
        for n in range(4):
            for kinds in itertools.product(range(3), repeat=n):
                for covs in range(3):
                    for how in (["copy", "method", "new"] if covs == 0 else ["copy", "method"]):
                        yield ["bunch", list(kinds), covs, how]
    def same(self, d, hit, sig, what, gw=None):
        for name in models.STORED:
            got = hit.get(name)
            if not (got == d[name] and type(got) == type(d[name])):
                raise mc.Bad(sig + ":" + name, "%s: %s reads %r expected %r" % (what, name, got, d[name]))
        if gw is not None: mc.near(hit.get("global_weight"), gw, sig + ":global_weight", what)
    def base(self):
        d = {n: 0.5 + k for k, n in enumerate(models.DOUBLES)}
        d.update({n: 1 + k for k, n in enumerate(models.INTS)})
        return d
    def build(self, d):
        h = Hit()
        for k, v in d.items(): h.set(k, v)
        return h
    def run_case(self, case):
        ctx = WeightContext()
        Hitcore.set_weight_context(ctx)
        if case[0] == "value":
            _, m, v, x = case
            d = self.base()
            d[v] = x
            ids = {models.World.ident(d): 0.5, (0, 0, 0): 7.0, (d["spill"], 0, 0): 8.0, (0, d["event_number"], 0): 9.0,
                   (0, d["event_number"], d["particle_number"]): 10.0, (d["spill"], d["event_number"], 0): 11.0}
            for i, w in ids.items(): ctx.set_weight(w, *i)
            h = self.build(d)
            new = duplicate(h, m)
            gw = ids[models.World.ident(d)]
            self.same(d, new, "copy-" + m, case, gw)
            self.same(d, h, "original-" + m, case, gw)
            for i, w in ids.items(): mc.near(ctx.get_weight(*i), w, "bystander-weight", case, i)
            mc.need(new is not h and new == h and not (new != h), "equality", case)
            # independence, and equality notices a difference in any variable
            if abs(x) < 1e200:
                y = (12 if isinstance(x, int) else 12.5)
                if y != x:
                    new.set(v, y)
                    self.same(d, h, "independence-" + m, case)
                    mc.need(new != h and not (new == h), "equality-misses-" + v, case)
            return case
        if case[0] == "many":
            # many hits at once, the same hit in several places, many weights written
            _, n, how = case
            ds = [dict(self.base(), spill=k % 3, event_number=k // 3, particle_number=-k, x=k / 7.0) for k in range(n)]
            hits = [self.build(d) for d in ds]
            for k, d in enumerate(ds):
                if k % 3: ctx.set_weight(k + 2.0, *models.World.ident(d))
            if how[:6] == "pickle": got = pickle.loads(pickle.dumps(hits, int(how[6:])))
            else:
                b = Bunch()
                for h in hits: b.append(h)
                got = (copy.deepcopy(b) if how == "copy" else b.deepcopy() if how == "method" else Bunch.new_from_hits(hits)).hits()
            mc.need(len(got) == n, "many-length", case, len(got))
            for k, d in enumerate(ds):
                for h in (got[k], hits[k]): self.same(d, h, "many", case, k + 2.0 if k % 3 else 1.0)
                mc.near(ctx.get_weight(*models.World.ident(d)), k + 2.0 if k % 3 else 1.0, "many-weight", case)
                mc.need(got[k] is not hits[k], "many-shares", case)
                got[k].set("y", -5.0)
            for k, d in enumerate(ds): self.same(d, hits[k], "many-independence", case)
            mc.seen(case)
            return case
        if case[0] == "weight":
            _, m, ident, gw, lw = case
            expect = {}
            for k, i in enumerate(GRID):
                if list(i) == ident:
                    if gw is not None: expect[i] = gw
                elif k % 4: expect[i] = k + 1.0
            for i, w in expect.items(): ctx.set_weight(w, *i)
            d = self.base()
            d.update(spill=ident[0], event_number=ident[1], particle_number=ident[2], local_weight=lw)
            h = self.build(d)
            others = [self.build(dict(self.base(), spill=i[0], event_number=i[1], particle_number=i[2])) for i in GRID[::5]]
            new = duplicate(h, m)
            self.same(d, new, "copy-" + m, case, expect.get(tuple(ident), 1.0))
            self.same(d, h, "original-" + m, case, expect.get(tuple(ident), 1.0))
            for i in GRID + [(5, 5, 5)]: mc.near(ctx.get_weight(*i), expect.get(i, 1.0), "weights-disturbed", case, i)
            for i, o in zip(GRID[::5], others): mc.near(o.get("global_weight"), expect.get(i, 1.0), "others-disturbed", case, i)
            return case
        if case[0] == "hist":
            w = models.World()
            hits = []
            for k in range(2):
                d = self.base()
                d.update(spill=1, event_number=k, particle_number=0, x=10.0 + k)
                w.hits.append(d)
                hits.append(self.build(d))
            for k in case[1]:
                op = OPS[k]
                mc.S.add("transitions")
                if op[0] == "copy":
                    hits.append(duplicate(hits[op[1]], op[2]))
                    w.hits.append(dict(w.hits[op[1]]))
                elif op[0] == "set":
                    hits[op[1]].set(op[2], op[3])
                    w.set(w.hits[op[1]], op[2], op[3])
                else:
                    Hit.clear_global_weights()
                    w.weights.clear()
                for d, hit in zip(w.hits, hits): self.same(d, hit, "history", case, w.get(d, "global_weight"))
                for i in GRID: mc.near(ctx.get_weight(*i), w.weights.get(i, 1.0), "history-weights", case, i)
            mc.seen([w.hits, sorted(w.weights.items())])
            return case
        _, kinds, covs, how = case
        if covs and sum(1 for k in kinds if k < 2) < 1: return None
        ds = []
        for k, kind in enumerate(kinds):
            d = self.base()
            d.update(x=float(kind) * 3 + k * 0.5, event_number=kind, local_weight=1.0, pid=[-13, 11, 2212][kind])
            ds.append(d)
        ctx.set_weight(0.25, 1, 1, 3)
        ctx.set_weight(0.0, ds[0]["spill"] if ds else 1, 2, 3)
        w0 = {i: ctx.get_weight(*i) for i in itertools.product(range(4), repeat=3)}
        b = Bunch()
        for d in ds: b.append(self.build(d))
        if covs == 1: b.set_covariance_matrix()
        if covs == 2: b.set_covariance_matrix(True, numpy.matrix(numpy.arange(100.).reshape(10, 10)), {"x": 5.0, "energy": 2.0})
        if how == "copy": c = copy.deepcopy(b)
        elif how == "method": c = b.deepcopy()
        else: c = Bunch.new_from_hits(b.hits())
        mc.need(c is not b and len(c) == len(ds) == len(b), "bunch-length", case)
        for k, d in enumerate(ds):
            self.same(d, c[k], "bunch-copy", case)
            self.same(d, b[k], "bunch-original", case)
            mc.need(c[k] is not b[k], "bunch-shares-hit", case)
        for i, v in w0.items(): mc.near(ctx.get_weight(*i), v, "bunch-weights", case, i)
        mc.need(c == b and not (c != b), "bunch-equality", case)
        mc.need(c.covariances_set() == b.covariances_set() and c.means_set() == b.means_set(), "bunch-covariances-set", case)
        if c.bunch_weight() > 0:
            mc.near(c.mean(["x"])["x"], b.mean(["x"])["x"], "bunch-mean", case)
            mc.near(c.moment(["x", "energy"]), b.moment(["x", "energy"]), "bunch-moment", case)
        for k, d in enumerate(ds):
            c[k].set("x", -99.0)
            self.same(d, b[k], "bunch-independence", case)
            mc.need(c != b, "bunch-equality-misses", case)
            c[k].set("x", d["x"])
        c.append(Hit())
        mc.need(len(b) == len(ds) and c != b, "bunch-independence-length", case)
        for k, d in enumerate(ds):
            b[k].set("px", 77.0)
            self.same(d, c[k], "bunch-independence-back", case)
        return case

if __name__ == "__main__":
    mc.main(C06)
