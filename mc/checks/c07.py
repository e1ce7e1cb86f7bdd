import copy, itertools, operator
import mc, models
mc.block_root()
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Hitcore, WeightContext

# (x, local weight, event number, pid)
POOL = [(1.0, 1.0, 1, -13), (2.0, 0.5, 2, 11), (4.0, 0.0, 3, -13), (8.0, 2.0, 4, 11), (8.0, 2.0, 4, 11), (16.0, -0.25, 5, 13)]
OPS = [["append", 0], ["append", 1], ["append", 2], ["append", 3], ["append", 4], ["append", 5],
       ["set", 0, 1], ["set", 1, 3], ["set", -1, 0], ["set", -2, 2], ["set", 3, 5], ["set", -4, 4], ["set", 9, 1],
       ["del", 0], ["del", 1], ["del", -1], ["del", -3], ["del", 2], ["del", 7], ["del", -8],
       ["remove", "x", 3.0, "ge"], ["remove", "x", 3.0, "lt"], ["remove", "pid", 11, "eq"], ["remove2"],
       ["edit", 0], ["editvia"], ["weight"], ["copy"], ["shallow"], ["rebuild"], ["bad"], ["swap"]]
START = [[], [0], [0, 1, 2], [3, 0, 3, 4, 5]]
CMP = {"ge": operator.ge, "lt": operator.lt, "eq": operator.eq}

class C07(mc.Check):
    pid = "C07"
    level = "model_checking"
    technique = "exhaustive exploration of operation histories against a plain list"
    rule = ("all sequences up to a depth of 32 list operations (append, item assignment and deletion with positive, "
            "negative and out-of-range indices, conditional removal, copies, edits, rejected operations) from four "
            "starting bunches with repeated, equal and zero-weight hits; contents, order, statistics and cuts compared "
            "with a plain list")
    assumptions = ["integer indices only; slices assigned to a bunch are not promised"]
    def cases(self):
        depth = 4 if self.thorough else 3
        for s in range(len(START)):
            for n in range(depth + 1):
                for ops in itertools.product(range(len(OPS)), repeat=n): yield [s, list(ops)]
        if not self.thorough:
            core = [k for k, o in enumerate(OPS) if o[0] in ("set", "del", "swap") or o == ["append", 3] or o == ["edit", 0]]
            for ops in itertools.product(core, repeat=4):
                yield [2, list(ops)]
        for n in (9, 33, 130, 520, 1030):
            for step in (1, 2, 7): yield ["many", n, step]
    def many(self, case):
        """Long bunches: edits at both ends and in between, everything compared after each."""
        n, step = case[1:]
        made = [0]
        def hit():
            k = made[0]
            made[0] += 1
            return Hit.new_from_dict(dict(x=float(k % 17), px=float(k % 5) - k % 3, pz=200.0, local_weight=0.5 + k % 3, event_number=k))
        b, m = Bunch(), []
        self.bunch, self.model = b, m
        def agree(what):
            mc.S.add("transitions")
            mc.need(len(b) == len(m) and all(x is y for x, y in zip(b.hits(), m)), "many-contents", case, what)
            mc.need(all(b[k] is m[k] and b[k - len(m)] is m[k] for k in range(len(m))), "many-index", case, what)
            self.stats([case, what])
        for k in range(n):
            b.append(hit())
            m.append(b[-1])
        agree("append")
        for k in range(0, n, step + 1):
            m[k] = b[k] = hit()
            m[-1 - k] = b[-1 - k] = hit()
        agree("replace")
        for k in (0, n // 2, -1, n - 5, -(n - 4), 1):
            del b[k]
            del m[k]
            agree(["delete", k])
        for f, v in ((operator.eq, 3.0), (operator.lt, 2.0), (operator.gt, 14.0)):
            b.conditional_remove({"x": v}, f)
            m[:] = [h for h in m if not f(h["x"], v)]
            agree(["remove", v])
        for h in m[::step]: h["x"] = h["x"] + 0.5
        agree("edit")
        b.cut({"x": 9.0}, operator.ge)
        mc.need(all((h["local_weight"] == 0.0) == (h["x"] >= 9.0) for h in m), "many-cut", case)
        agree("cut")
        while len(m) > 2:
            for k in range(len(m) - 1, 0, -step - 1):
                del b[k]
                del m[k]
            agree("thin")
        mc.seen(case)
        return case
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        if case[0] == "many": return self.many(case)
        pool = []
        for x, lw, ev, pid in POOL:
            pool.append(Hit.new_from_dict(dict(x=x, px=x * x, y=1.0 / x, local_weight=lw, event_number=ev, pid=pid, pz=200.0)))
        self.pool, self.model = pool, [pool[k] for k in START[case[0]]]
        self.bunch = Bunch()
        for hit in self.model: self.bunch.append(hit)
        for k in case[1]:
            mc.S.add("transitions")
            self.step(OPS[k], case)
        self.compare(case)
        return case
    def attempt(self, f, expect, sig, case):
        try:
            f()
            ok = True
        except (IndexError, TypeError, AttributeError, ValueError, KeyError, ZeroDivisionError) as e:
            ok = False
        mc.need(ok == expect, sig, case, "expected", "success" if expect else "an error")
    def step(self, op, case):
        m, b, pool = self.model, self.bunch, self.pool
        name = op[0]
        if name == "append":
            b.append(pool[op[1]])
            m.append(pool[op[1]])
        elif name == "set":
            ok = -len(m) <= op[1] < len(m)
            self.attempt(lambda: b.__setitem__(op[1], pool[op[2]]), ok, "set-index", case)
            if ok: m[op[1]] = pool[op[2]]
        elif name == "del":
            ok = -len(m) <= op[1] < len(m)
            self.attempt(lambda: b.__delitem__(op[1]), ok, "del-index", case)
            if ok: del m[op[1]]
        elif name == "remove":
            f = CMP[op[3]]
            b.conditional_remove({op[1]: op[2]}, f)
            m[:] = [h for h in m if not f(h.get(op[1]), op[2])]
        elif name == "remove2":
            b.conditional_remove({"x": 12.0, "event_number": 1}, operator.eq)
            m[:] = [h for h in m if h.get("x") != 12.0 and h.get("event_number") != 1]
        elif name == "edit":
            pool[op[1]].set("x", 3.0)
            pool[op[1]].set("px", -1.0)
        elif name == "editvia":
            if m: b[-1]["x"] = 5.0
        elif name == "weight":
            for k, h in enumerate(pool):
                if k in (0, 3): h.set("local_weight", 0.75)
            Hitcore.get_weight_context().set_weight(3.0, 0, 2, 0)
        elif name == "copy":
            c = copy.deepcopy(b)
            mc.need(len(c) == len(m) and all(x == y and x is not y for x, y in zip(c.hits(), m)), "copy", case)
            old = self.bunch
            self.bunch, self.model = c, list(c.hits())
            if len(old): del old[0]
            self.check_core(case)
        elif name == "shallow":
            self.bunch = copy.copy(b)
        elif name == "rebuild":
            c = Bunch.new_from_hits(m)
            mc.need(len(c) == len(m) and all(x == y for x, y in zip(c.hits(), m)), "new_from_hits", case)
            self.bunch, self.model = c, list(c.hits())
        elif name == "bad":
            self.attempt(lambda: b.append(None), False, "append-bad", case)
            if m:
                self.attempt(lambda: b.__setitem__(0, "hit"), False, "set-bad", case)
                def boom(a, c): raise ValueError("no")
                self.attempt(lambda: b.conditional_remove({"x": 1.0}, boom), False, "remove-bad", case)
                self.attempt(lambda: b.conditional_remove({"no such": 1.0}, operator.ge), False, "remove-unknown", case)
            self.attempt(lambda: b.__delitem__("0"), False, "del-bad", case)
        elif name == "swap":
            if len(m) > 1:
                b[0], b[-1] = b[-1], b[0]
                m[0], m[-1] = m[-1], m[0]
    def check_core(self, case): self.stats(case)
    def compare(self, case):
        m, b = self.model, self.bunch
        mc.need(len(b) == len(m), "length", case, len(b), "expected", len(m))
        got = [h for h in b]
        hits = b.hits()
        mc.need(len(hits) == len(m), "hits-length", case)
        for k, h in enumerate(m):
            mc.need(b[k] is h and b[k - len(m)] is h and got[k] is h and hits[k] is h, "contents", case, "position", k)
        self.attempt(lambda: b[len(m)], False, "get-index", case)
        self.stats(case)
        # statistics see current values
        for k, h in enumerate(m): h.set("px", h.get("px") + 10.0 ** k)
        self.stats(case)
        xs = [h.get("x") for h in m]
        before = [h.get("local_weight") for h in m]
        b.cut({"x": 4.0}, operator.ge)
        expect = list(before)
        for k, h in enumerate(m):
            if xs[k] >= 4.0:
                for j in range(len(m)):
                    if m[j] is h: expect[j] = 0.0
        mc.need([h.get("local_weight") for h in m] == expect, "cut", case)
        self.stats(case)
        mc.seen([(h.get("x"), h.get("px"), h.get("local_weight")) for h in m])
    def stats(self, case):
        m, b = self.model, self.bunch
        ws = [h.get("weight") for h in m]
        total = sum(ws)
        mc.near(b.bunch_weight(), total, "bunch-weight", case)
        if abs(total) < 1e-6:
            self.attempt(lambda: b.moment(["x"], {"x": 0.0}), False, "zero-weight-moment", case)
            return
        mean = {}
        for v in ("x", "px", "p"):
            mean[v] = sum(w * h.get(v) for w, h in zip(ws, m)) / total
            mc.near(b.mean([v])[v], mean[v], "mean-" + v, case)
        def cov(u, v): return sum(w * (h.get(u) - mean[u]) * (h.get(v) - mean[v]) for w, h in zip(ws, m)) / total
        c = b.covariance_matrix(["x", "px"])
        for i, u in enumerate(("x", "px")):
            for j, v in enumerate(("x", "px")):
                mc.near(c[i, j], cov(u, v), "covariance", case, rel=1e-8, abs_=1e-7)
        mc.near(b.moment(["x", "px"]), cov("x", "px"), "moment", case, rel=1e-8, abs_=1e-7)
        mc.near(b.moment(["x", "p"]), cov("x", "p"), "moment-derived", case, rel=1e-8, abs_=1e-7)

if __name__ == "__main__":
    mc.main(C07)
