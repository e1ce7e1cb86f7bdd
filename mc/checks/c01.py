import itertools, math
import mc, models
mc.block_root()
import numpy
from xboa.hit import Hit
from xboa.core import Hitcore

RD = ["pt", "r", "phi", "r'", "weight", "r_squared", "nonsense", "", "X", "event"]   # not settable, or no-op ('')
DV = [-1.5, 0.0, 7, 1e300, 5e-324, -0.0, True, float("inf"), "np1.25", "npi4"]
DBAD = ["abc", None, [1.0], "complex", 10**400]
IV = [3, 0, -1, 2**31 - 1, -2**31, True, "npi4"]
IBAD = ["abc", None, [1], 2.5, 3.0, "np1.25", 2**31, -2**31 - 1, 10**400, 2**32 + 5]

def val(v):
    if v == "np1.25": return numpy.float64(1.25)
    if v == "npi4": return numpy.int64(4)
    if v == "complex": return complex(1, 2)
    return v

SETTABLE = models.DOUBLES + ["global_weight"] + models.INTS + sorted(models.ALIAS)
READ = SETTABLE + ["weight"]

class C01(mc.Check):
    pid = "C01"
    level = "model_checking"
    rule = ("histories of assignments on 3 hits; every history of length 2 over all names, "
            "value classes and hit pairs, longer ones over a reduced alphabet; all variables "
            "of all hits compared with the model after every step")
    assumptions = ["values for integer variables are 32 bit; others must be rejected"]
    def full(self):
        ops = []
        for n in models.DOUBLES + ["global_weight"]:
            ops += [[n, v] for v in DV + DBAD]
        for n in models.INTS + sorted(models.ALIAS):
            ops += [[n, v] for v in IV + IBAD]
        ops += [[n, 2.0] for n in RD]
        return ops
    def pairs(self):
        ops = []
        for n in models.DOUBLES + ["global_weight"]:
            ops += [[n, -1.5], [n, "abc"]]
        for n in models.INTS + sorted(models.ALIAS):
            ops += [[n, 3], [n, 2.5]]
        ops += [["nonsense", 2.0]]
        return ops
    def core(self):
        return [["x", -1.5], ["pz", 2.5], ["local_weight", 0.5], ["global_weight", 3.0],
                ["eventNumber", 2], ["event_number", 1], ["particle_number", 2], ["spill", 1],
                ["station", 4], ["pid", 2.5], ["mass", "abc"]]
    def cases(self):
        for op in self.full():
            for via in ("set", "item", "core"):
                yield [via, [[0] + op]]
                yield [via, [[1] + op, [1, op[0], 0]]]
        for a, b in itertools.product(self.pairs(), repeat=2):
            for i, j in ((0, 0), (0, 1), (2, 1)):
                yield ["set", [[i] + a, [j] + b]]
        core = self.core()
        depth = 4 if self.thorough else 3
        for ops in itertools.product(core, repeat=depth):
            yield ["item", [[k % 2] + op for k, op in enumerate(ops)]]
        if self.thorough:
            for a, b, c in itertools.product(self.pairs(), repeat=3):
                yield ["set", [[0] + a, [1] + b, [0] + c]]
            for hs in itertools.product((0, 1, 2), repeat=4):
                for ops in itertools.product(core[:6], repeat=4):
                    yield ["core", [[k] + op for k, op in zip(hs, ops)]]
        for n in SETTABLE:      # construction from a dictionary
            good = 3 if n in models.INTS or n in models.ALIAS else -1.5
            for m in SETTABLE:
                good2 = 4 if m in models.INTS or m in models.ALIAS else 2.5
                yield ["dict", [[n, good], [m, good2]]]
    def accept(self, name, v):
        if name == "": return "noop"
        if name in models.DOUBLES or name == "global_weight":
            return "ok" if v not in DBAD else "bad"
        if name in models.INTS or name in models.ALIAS:
            return "ok" if not any(v is b or (type(v) == type(b) and v == b) for b in IBAD) else "bad"
        return "bad"
    def compare(self, w, hits, what):
        for k, (d, hit) in enumerate(zip(w.hits, hits)):
            for name in READ:
                e = w.get(d, name)
                got = hit.get(name)
                if not mc.close(got, e, rel=1e-12, abs_=0):
                    raise mc.Bad("state:%s" % models.ALIAS.get(name, name),
                                 "%s: hit %d variable %s reads %r, expected %r" % (what, k, name, got, e))
        mc.seen([sorted(d.items()) for d in w.hits])
    def run_case(self, case):
        Hitcore.clear_global_weights()
        via, ops = case
        w = models.World()
        if via == "dict":
            d = w.new()
            w.new()
            other = Hit()
            arg = {}
            for n, v in ops: arg[n] = v
            hit = Hit.new_from_dict(arg)
            if len({models.ALIAS.get(n, n) for n in arg}) < len(arg): return None   # two aliases: no defined order
            for n, v in arg.items():
                if n != "global_weight": w.set(d, n, v)
            if "global_weight" in arg: w.set(d, "global_weight", arg["global_weight"])
            self.compare(w, [hit, other], "new_from_dict(%r)" % arg)
            return ["dict"] + sorted(arg)
        hits = [Hitcore() if via == "core" else Hit() for _ in range(3)]
        for _ in hits: w.new()
        self.compare(w, hits, "initially")
        out = []
        for k, name, raw in ops:
            v = val(raw)
            mode = self.accept(name, raw)
            try:
                if via == "item": hits[k][name] = v
                else: hits[k].set(name, v)
                raised = None
            except Exception as e:
                raised = e
            mc.S.add("transitions")
            if via == "core" and name == "": mode = "bad"
            if mode == "ok":
                mc.need(raised is None, "rejected:%s" % name, "set", name, v, "raised", raised)
                w.set(w.hits[k], name, v)
            elif mode == "bad":
                mc.need(raised is not None, "accepted:%s" % name, "set", name, v, "was accepted; reads",
                        hits[k].get(name) if name in READ else None)
            self.compare(w, hits, "after %r" % [k, name, raw])
            out.append([k, name, mode, type(raw).__name__])
        for name in ("nonsense", "X", "Energy"):
            try:
                hits[0].get(name)
            except Exception:
                pass
            else:
                raise mc.Bad("accepted-get", "reading unknown variable %r succeeded" % name)
        return out

if __name__ == "__main__":
    mc.main(C01)
