import itertools
import mc, models
mc.block_root()
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Hitcore

IDS = [(1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 1, 2)]
EDGE = [-2**31, -1, 0, 1, 2, 255, 256, 1000, 65536, 2**31 - 1]
OPS = [["gw", 0, 2.0], ["gw", 1, 0.0], ["gw", 3, -0.5], ["lw", 0, 0.25], ["lw", 2, 0.0],
       ["ctx", [1, 1, 2], 5.0], ["ctx", [2, 1, 1], 0.0], ["ctxkw", [1, 2, 1], 4.0],
       ["move", 0, "eventNumber", 2], ["move", 0, "particle_number", 1], ["move", 1, "spill", 2],
       ["move", 3, "event_number", 2], ["move", 2, "spill", 1], ["move", 1, "particleNumber", 2],
       ["clear", "hit"], ["clear", "bunch"], ["copy", 0], ["bunchgw"], ["clearlocal"]]

class C03(mc.Check):
    pid = "C03"
    level = "model_checking"
    rule = ("all histories up to a depth over 19 operations (weights through hits, contexts, relabelling, "
            "clears, copies) on 4 hits whose identities permute the same numbers; plus every pair of a "
            "1000-identity grid, and of 12000 identities with numbers at all powers of 2 and 10, kept apart")
    assumptions = ["a bunch's clear_weights also clears its hits' local weights, as documented"]
    def cases(self):
        yield ["grid", 0]
        yield ["grid", 1]
        yield ["swap"]
        for a, b in ((0, 1), (1, 2), (0, 2)): yield ["carry", a, b]
        depth = 5 if self.thorough else 4
        for n in range(1, depth):
            for ops in itertools.product(range(len(OPS)), repeat=n): yield ["h", list(ops)]
        for ops in itertools.product(range(len(OPS)), repeat=depth):
            # the last operation of the longest histories is followed by a full comparison anyway
            if len(set(ops)) < depth and not self.thorough: continue
            yield ["h", list(ops)]
    def compare(self, w, hits, what):
        for k, (d, hit) in enumerate(zip(w.hits, hits)):
            for name in ("global_weight", "local_weight", "weight", "spill", "event_number", "particle_number"):
                e = w.get(d, name)
                got = hit.get(name)
                if got != e:
                    raise mc.Bad("weight:" + name, "%s: hit %d %s reads %r expected %r" % (what, k, name, got, e))
        mc.seen([sorted(w.weights.items()), [(models.World.ident(d), d["local_weight"]) for d in w.hits]])
    def ctx_compare(self, w, what):
        ctx = Hitcore.get_weight_context()
        for ident in itertools.product((1, 2), repeat=3):
            e = w.weights.get(ident, w.default)
            mc.near(ctx.get_weight(*ident), e, "context", what, ident)
            mc.near(ctx.get_weight(particle_number=ident[2], spill=ident[0], event_number=ident[1]),
                    e, "context-keywords", what, ident)
    def run_case(self, case):
        Hit.clear_global_weights()
        ctx = Hitcore.get_weight_context()
        if case[0] == "grid":
            ids = list(itertools.product(EDGE, repeat=3))
            if case[1]: ids.reverse()
            hits = []
            for k, (s, e, p) in enumerate(ids):
                hit = Hit.new_from_dict({"spill": s, "event_number": e, "particle_number": p})
                if k % 2: hit.set("global_weight", k + 2.0)
                else: ctx.set_weight(k + 2.0, s, e, p)
                hits.append(hit)
            for k, (ident, hit) in enumerate(zip(ids, hits)):
                mc.near(hit.get("global_weight"), k + 2.0, "grid", ident)
                mc.near(ctx.get_weight(*ident), k + 2.0, "grid", ident)
            Hit.clear_global_weights()
            for hit in hits: mc.near(hit.get("global_weight"), 1.0, "grid-clear")
            return ["grid", case[1]]
        if case[0] == "carry":
            # numbers that run over into one another if identities are packed into a word or a text
            vals = sorted(set(s * (b ** k + d) for b, n in ((2, 31), (10, 10)) for k in range(n) for d in (-1, 0, 1) for s in (1, -1)) | {0, 11, 12, 21, 111, 121, -2**31})
            few = [v for v in vals if abs(v) <= 2] + [2**31 - 1, -2**31, 11, 12, 65536]
            ids = set()
            for x, y in itertools.chain(itertools.product(vals, few), itertools.product(few, vals)):
                i = [0, 0, 0]
                i[case[1]], i[case[2]] = x, y
                ids.add(tuple(i))
            ids = sorted(ids, key=lambda i: (sum(map(abs, i)), i))
            for k, i in enumerate(ids):
                hit = Hit.new_from_dict(dict(zip(("spill", "event_number", "particle_number"), i)))
                mc.near(hit.get("global_weight"), 1.0, "carry-default", i)
                hit.set("global_weight", k + 2.0)
            for k, i in enumerate(ids): mc.near(ctx.get_weight(*i), k + 2.0, "carry", i)
            mc.S.add("transitions", len(ids))
            return case
        if case[0] == "swap":
            for base in itertools.permutations((1, 2, 3)):
                Hit.clear_global_weights()
                hits = {i: Hit.new_from_dict(dict(zip(("spill", "event_number", "particle_number"), i)))
                        for i in itertools.product((1, 2, 3), repeat=3)}
                hits[base].set("global_weight", 9.0)
                for i, hit in hits.items():
                    mc.near(hit.get("global_weight"), 9.0 if i == base else 1.0, "identity", base, i)
                    mc.near(ctx.get_weight(*i), 9.0 if i == base else 1.0, "identity", base, i)
            return ["swap"]
        w = models.World()
        hits = []
        for s, e, p in IDS:
            w.new(spill=s, event_number=e, particle_number=p)
            hit = Hit()
            hit.set("spill", s); hit.set("event_number", e); hit.set("particle_number", p)
            hits.append(hit)
        bunch = Bunch()
        for hit in hits[:3]: bunch.append(hit)
        for k in case[1]:
            op = OPS[k]
            mc.S.add("transitions")
            if op[0] == "gw":
                hits[op[1]].set("global_weight", op[2])
                w.set(w.hits[op[1]], "global_weight", op[2])
            elif op[0] == "lw":
                hits[op[1]].set("local_weight", op[2])
                w.hits[op[1]]["local_weight"] = op[2]
            elif op[0] == "ctx":
                ctx.set_weight(op[2], *op[1])
                w.weights[tuple(op[1])] = op[2]
            elif op[0] == "ctxkw":
                s, e, p = op[1]
                Hitcore.get_weight_context().set_weight(weight=op[2], event_number=e, particle_number=p, spill=s)
                w.weights[(s, e, p)] = op[2]
            elif op[0] == "move":
                hits[op[1]].set(op[2], op[3])
                w.set(w.hits[op[1]], op[2], op[3])
            elif op[0] == "clear":
                if op[1] == "hit": Hit.clear_global_weights()
                else: Bunch.clear_global_weights()
                w.weights.clear()
            elif op[0] == "copy":
                hits[3] = hits[op[1]].deepcopy()
                w.hits[3] = dict(w.hits[op[1]])
            elif op[0] == "bunchgw":
                # a hit reached through the bunch is the same hit
                bunch[1].set("global_weight", 8.0)
                w.set(w.hits[1], "global_weight", 8.0)
            elif op[0] == "clearlocal":
                bunch.clear_local_weights()
                for d in w.hits[:3]: d["local_weight"] = 1.0
            self.compare(w, hits, "after %r of %r" % (op, [OPS[j] for j in case[1]]))
        self.ctx_compare(w, [OPS[j] for j in case[1]])
        return [sorted(w.weights.items()), [(models.World.ident(d), d["local_weight"]) for d in w.hits]]

if __name__ == "__main__":
    mc.main(C03)
