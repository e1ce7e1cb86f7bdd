import gc, itertools, operator
import mc, models
mc.block_root()
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Hitcore, WeightContext

IDS = [(1, 1, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1)]
GRID = list(itertools.product((1, 2), repeat=3)) + [(9, 9, 9)]
OPS = [["new", 1, 2.0], ["new", 2, 0.0], ["switch", 0], ["switch", 1], ["switch", 2], ["drop", 0], ["drop", 1],
       ["handle", 2], ["hit", 0, 0.5], ["hit", 2, 3.0], ["ctx", 0, 0.0], ["ctx", 1, 4.0], ["ctx", 2, 0.25],
       ["default", 1, 0.5], ["clear"], ["sum"], ["scale"], ["not"], ["cutg", 2.0], ["cuti", 7], ["cutl", 3.0],
       ["move", 1], ["tcut"], ["clearbunch"]]

class Ctx(object):
    def __init__(self, default=1.0, w=()): self.default, self.w, self.rewritten = default, dict(w), False
    def get(self, i): return self.w.get(i, self.default)

class C05(mc.Check):
    pid = "C05"
    level = "model_checking"
    technique = "exhaustive exploration of operation histories on the real code against a reference model"
    rule = ("all histories up to a depth over 24 operations: creating, switching, editing, clearing, combining and "
            "dropping 3 weight contexts, weight writes and relabelling through hits, local and global cuts; after each "
            "step every context, hit weight and bunch statistic is compared with the model")
    def cases(self):
        n = 4 if self.thorough else 3
        for k in range(1, n + 1):
            for ops in itertools.product(range(len(OPS)), repeat=k): yield list(ops)
        if not self.thorough:      # deeper histories that end in an observation of a switched-to context
            core = [k for k, o in enumerate(OPS) if o[0] in ("new", "switch", "hit", "drop", "sum", "cutg", "clear")]
            for ops in itertools.product(core, repeat=4):
                if any(OPS[o][0] == "switch" for o in ops): yield list(ops)
        for n in (13, 70, 300, 1100):
            for same in (1, 2, 5): yield ["many", n, same]
    def setup(self):
        # before anything else: the context that exists at import
        hit = Hit.new_from_dict({"x": 2.0, "event_number": 4})
        b = Bunch()
        b.append(hit)
        hit2 = Hit.new_from_dict({"x": 6.0, "event_number": 5})
        b.append(hit2)
        Hitcore.get_weight_context().set_weight(3.0, 0, 4, 0)
        mc.near(hit.get("global_weight"), 3.0, "initial-context")
        mc.near(b.moment(["x"], {"x": 0.0}), 3.0, "initial-context-moment")
        b.cut({"x": 3.0}, operator.lt, global_cut=True)
        mc.near(Hitcore.get_weight_context().get_weight(0, 4, 0), 0.0, "initial-context-cut")
    def many(self, n, same):
        """The same agreement for bunches of many hits, several hits to an identity."""
        hs = [WeightContext(), WeightContext()]
        hs[1].set_default_weight(0.5)
        cs = [Ctx(1.0), Ctx(0.5)]
        Hitcore.set_weight_context(hs[0])
        ids = [(k // same % 5, k // same % 7, k // same) for k in range(n)]
        lw = [0.5 * (k % 3) for k in range(n)]
        b, hits = Bunch(), []
        for k in range(n):
            h = Hit.new_from_dict(dict(x=float(k), spill=ids[k][0], event_number=ids[k][1], particle_number=ids[k][2], local_weight=lw[k]))
            hits.append(h)
            b.append(h)
        def agree(a, what):
            ws = [cs[a].get(i) * l for i, l in zip(ids, lw)]
            for k, h in enumerate(hits):
                mc.near(h.get("weight"), ws[k], "many-weight", n, same, what, k)
                mc.near(Hitcore.get_weight_context().get_weight(*ids[k]), cs[a].get(ids[k]), "many-context", n, same, what, k)
            mc.near(b.bunch_weight(), sum(ws), "many-bunch", n, same, what)
            m = sum(w * k for k, w in enumerate(ws)) / sum(ws)
            mc.near(b.mean(["x"])["x"], m, "many-mean", n, same, what)
            mc.near(b.covariance_matrix(["x"])[0, 0], sum(w * (k - m) ** 2 for k, w in enumerate(ws)) / sum(ws), "many-covariance", n, same, what)
            for h, c in zip(hs, cs):
                for i in ids: mc.near(h.get_weight(*i), c.get(i), "many-contexts", n, same, what, i)
            mc.S.add("transitions")
        agree(0, "start")
        for k in range(0, n, 3):
            hits[k].set("global_weight", 1.0 + k % 4)
            cs[0].w[ids[k]] = 1.0 + k % 4
        agree(0, "set")
        Hitcore.set_weight_context(hs[1])
        agree(1, "switch")
        b.cut({"x": n / 2.0}, operator.lt, global_cut=True)
        for k in range(n):
            if k < n / 2.0: cs[1].w[ids[k]] = 0.0
        agree(1, "cut")
        Hitcore.set_weight_context(hs[0])
        agree(0, "back")
        for k in range(n - 1, -1, -2):
            hs[0].set_weight(0.25 + k % 3, *ids[k])
            cs[0].w[ids[k]] = 0.25 + k % 3
        agree(0, "context")
        hs[1] = hs[0] * hs[1]
        cs[1] = Ctx(0.5, {i: cs[0].get(i) * cs[1].get(i) for i in ids})
        agree(0, "product")
        Hitcore.set_weight_context(hs[1])
        agree(1, "switch to product")
        Hit.clear_global_weights()
        cs[1].w = {}
        agree(1, "clear")
        mc.seen(["many", n, same])
        return ["many", n, same]
    def run_case(self, ops):
        if ops[:1] == ["many"]: return self.many(*ops[1:])
        self.ctx = [Ctx(), Ctx(2.0), Ctx(0.5)]
        self.h = []
        for c in self.ctx:
            h = WeightContext()
            h.set_default_weight(c.default)
            self.h.append(h)
        self.w = models.World()
        Hitcore.set_weight_context(self.h[0])
        self.active = self.ctx[0]
        self.hits = []
        self.bunch, self.ref = Bunch(), Bunch()
        for k, i in enumerate(IDS):
            kw = dict(x=float(k + 1), spill=i[0], event_number=i[1], particle_number=i[2],
                      local_weight=[1.0, 0.5, 1.0, 2.0][k], pid=[7, 5, 5, 7][k])
            self.w.new(**kw)
            hit = Hit.new_from_dict(kw)
            self.hits.append(hit)
            self.bunch.append(hit)
        self.ref.append(Hit.new_from_dict(dict(spill=1, event_number=1, particle_number=1)))
        trace = []
        for k in ops:
            mc.S.add("transitions")
            self.step(OPS[k])
            trace.append(OPS[k])
            self.compare(trace)
        return ops
    def step(self, op):
        name = op[0]
        if name == "new":
            h = WeightContext()
            h.set_default_weight(op[2])
            self.h[op[1]], self.ctx[op[1]] = h, Ctx(op[2])
        elif name == "switch":
            if self.h[op[1]] is None: return
            Hitcore.set_weight_context(self.h[op[1]])
            self.active = self.ctx[op[1]]
        elif name == "drop":
            self.h[op[1]] = self.ctx[op[1]] = None
        elif name == "handle":
            self.h[op[1]], self.ctx[op[1]] = Hitcore.get_weight_context(), self.active
        elif name == "hit":
            self.hits[op[1]].set("global_weight", op[2])
            self.active.w[self.ident(op[1])] = op[2]
        elif name == "ctx":
            if self.h[op[1]] is None: return
            self.h[op[1]].set_weight(op[2], 1, 1, 1)
            self.ctx[op[1]].w[(1, 1, 1)] = op[2]
        elif name == "default":
            if self.h[op[1]] is None: return
            # whether a transmission cut rewrites the weights it keeps is not promised either way
            if self.ctx[op[1]].rewritten: return
            self.h[op[1]].set_default_weight(op[2])
            self.ctx[op[1]].default = op[2]
        elif name == "clear":
            Hit.clear_global_weights()
            self.active.w.clear()
        elif name == "clearbunch":
            self.bunch.clear_weights()
            self.active.w.clear()
            for d in self.w.hits: d["local_weight"] = 1.0
        elif name in ("sum", "scale", "not"):
            if self.h[0] is None or (name == "sum" and self.h[1] is None): return
            a, b = self.ctx[0], self.ctx[1]
            keys = set(a.w) | (set(b.w) if name == "sum" else set())
            if name == "sum":
                r = self.h[0] + self.h[1]
                f = lambda i: a.get(i) + b.get(i)
                d = a.default + b.default
            elif name == "scale":
                r = self.h[0] * 2.0
                f = lambda i: a.get(i) * 2.0
                d = a.default * 2.0
            else:
                r = ~self.h[0]
                f = lambda i: a.default if a.get(i) == 0 else 0.0
                d = 0.0
            self.h[2], self.ctx[2] = r, Ctx(d, {i: f(i) for i in keys})
            self.ctx[2].rewritten = a.rewritten or (name == "sum" and b.rewritten)
        elif name == "cutg":
            self.bunch.cut({"x": op[1]}, operator.gt, global_cut=True)
            for k, d in enumerate(self.w.hits):
                if d["x"] > op[1]: self.active.w[self.ident(k)] = 0.0
        elif name == "cuti":
            self.bunch.cut({"pid": op[1]}, operator.eq, global_cut=True)
            for k, d in enumerate(self.w.hits):
                if d["pid"] == op[1]: self.active.w[self.ident(k)] = 0.0
        elif name == "cutl":
            self.bunch.cut({"x": op[1]}, operator.ge)
            for d in self.w.hits:
                if d["x"] >= op[1]: d["local_weight"] = 0.0
        elif name == "tcut":
            self.bunch.transmission_cut(self.ref, global_cut=True)
            self.active.rewritten = True
            for k in range(len(IDS)):
                if self.ident(k) != (1, 1, 1): self.active.w[self.ident(k)] = 0.0
        elif name == "move":
            self.hits[op[1]].set("event_number", 2)
            self.w.hits[op[1]]["event_number"] = 2
    def ident(self, k): return models.World.ident(self.w.hits[k])
    def compare(self, trace):
        for k, (h, c) in enumerate(zip(self.h, self.ctx)):
            if h is None: continue
            for i in GRID: mc.near(h.get_weight(*i), c.get(i), "context-weights", trace, "context", k, "identity", i)
            mc.near(h.get_default_weight(), c.default, "context-default", trace, "context", k)
        now = Hitcore.get_weight_context()
        for i in GRID: mc.near(now.get_weight(*i), self.active.get(i), "active-context", trace, "identity", i)
        ws = []
        for k, (hit, d) in enumerate(zip(self.hits, self.w.hits)):
            g = self.active.get(self.ident(k))
            mc.near(hit.get("global_weight"), g, "hit-global", trace, "hit", k)
            mc.near(hit.get("local_weight"), d["local_weight"], "hit-local", trace, "hit", k)
            mc.near(hit.get("weight"), g * d["local_weight"], "hit-weight", trace, "hit", k)
            ws.append(g * d["local_weight"])
        total = sum(ws)
        mc.near(self.bunch.bunch_weight(), total, "bunch-weight", trace)
        if abs(total) > 1e-9:
            m = sum(w * d["x"] for w, d in zip(ws, self.w.hits)) / total
            v = sum(w * (d["x"] - m) ** 2 for w, d in zip(ws, self.w.hits)) / total
            mc.near(self.bunch.mean(["x"])["x"], m, "bunch-mean", trace)
            mc.near(self.bunch.moment(["x", "x"]), v, "bunch-variance", trace)
            mc.near(self.bunch.covariance_matrix(["x", "px"])[0, 0], v, "bunch-covariance", trace)
            core = self.bunch._Bunch__bunchcore if hasattr(self.bunch, "_Bunch__bunchcore") else None
            if core is not None and hasattr(core, "moment"):
                mc.near(core.moment(["x"], {"x": 0.0}), m, "core-mean", trace)
                mc.near(core.covariance_matrix(["x", "px"], {"x": m, "px": 0.0})[0][0], v, "core-covariance", trace)
        mc.seen([[(c.default, sorted(c.w.items())) if c else None for c in self.ctx], self.ctx.index(self.active)
                 if self.active in self.ctx else -1, self.active.default, sorted(self.active.w.items()),
                 [(self.ident(k), d["local_weight"]) for k, d in enumerate(self.w.hits)]])

if __name__ == "__main__":
    mc.main(C05)
