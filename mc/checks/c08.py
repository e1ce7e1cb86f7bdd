import os, copy, ctypes, gc, itertools, operator, pickle, sys
import mc
mc.block_root()
from xboa.core import Hitcore, Bunchcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

class Obj(object):
    """Model of one native hit: its value and nothing else."""
    n = 0
    def __init__(self):
        Obj.n += 1
        self.x = 0.0

OPS = [["newh", 0], ["newh", 1], ["delh", 0], ["delh", 1], ["alias", 0, 1], ["alias", 1, 0], ["reinit", 0], ["blank"],
       ["newb", 0], ["newb", 1], ["delb", 0], ["delb", 1], ["reinitb", 0],
       ["put", 0, 0, 0], ["put", 0, 1, 0], ["put", 0, 0, 1], ["put", 0, 1, 2], ["put", 1, 0, 0], ["put", 1, 1, 3], ["put", 0, 0, -1],
       ["get", 0, 0, 1], ["get", 1, 0, 0], ["get", 0, 1, 0], ["get", 1, 1, -1], ["self", 0], ["cross"],
       ["rm", 0, 0], ["rm", 0, 1], ["rm", 1, 0], ["rm", 0, -1], ["rmend", 0],
       ["setx", 0], ["setx", 1], ["stats", 0], ["cut", 0], ["cutrm", 0], ["cutraise", 0], ["errors", 0],
       ["neww"], ["switch"], ["sumw"], ["delw"], ["handle"]]

HOPS = [["new"], ["dup"], ["pickle"], ["append"], ["append2"], ["set", 0], ["set", -1], ["del", 0], ["del", -1], ["del", 5],
        ["remove"], ["cut"], ["cutg"], ["cutself"], ["tcut"], ["copybunch"], ["dropbunch"], ["drophit"], ["drophits"],
        ["stats"], ["iter"], ["split"], ["ctx"], ["fromdict"], ["badset"]]

class C08(mc.Check):
    pid = "C08"
    level = "model_checking"
    technique = "exhaustive exploration of native operation histories under AddressSanitizer with a reference-count model"
    rule = ("all sequences up to a depth of 43 operations on native hits, bunches and weight contexts (create, alias, "
            "re-initialise, insert, replace, fetch, delete, out-of-range and rejected calls, cuts whose comparator edits "
            "the bunch, every drop order) and of 25 operations on hits and bunches, each run under AddressSanitizer; the "
            "native reference table is compared with a model after every step and heap growth over repeats must be zero")
    assumptions = ["gcc's AddressSanitizer finds the invalid access when the explored history performs it",
                   "the native classes are not subclassed in python",
                   "leaks are measured by heap growth over repeated runs of the same history"]
    def setup(self):
        self.leak = os.environ["MC_PHASE"] == "plain"
        lib = ctypes.CDLL(None)
        if self.leak:
            class Info(ctypes.Structure):
                _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks",
                                                          "fsmblks", "uordblks", "fordblks", "keepcost")]
            info = lib.mallinfo2
            info.restype = Info
            def used():
                i = info()
                return i.uordblks + i.hblkhd
            self.bytes = used
        elif "libasan" not in open("/proc/self/maps").read():
            raise mc.Bad("no-asan", "the instrumented build is not active")
    def cases(self):
        depth = 3 if self.thorough and not self.leak else 2
        for n in range(1, depth + 1):
            for ops in itertools.product(range(len(OPS)), repeat=n): yield ["core", 0, list(ops)]
        for n in range(1, 3):
            for ops in itertools.product(range(len(OPS)), repeat=n): yield ["core", 1, list(ops)]
        if not self.thorough and not self.leak:
            # depth 3 where at least the last operation reads or drops something
            tail = [k for k, o in enumerate(OPS) if o[0] in ("delh", "delb", "rm", "get", "cutrm", "put", "self", "reinit", "switch")]
            for a, b in itertools.product(range(len(OPS)), repeat=2):
                for c in tail:
                    if (a * 5 + b * 3 + c) % 2 == 0: yield ["core", 1, [a, b, c]]
        hd = 4 if self.thorough else 3
        if self.leak: hd -= 1
        for n in range(1, hd + 1):
            for ops in itertools.product(range(len(HOPS)), repeat=n): yield ["hit", 0, list(ops)]
        for k in range(2000):
            if k % 97 == 0: yield ["churn", 0, [k]]
    def run_case(self, case):
        fn = {"core": self.core, "hit": self.hit, "churn": self.churn}[case[0]]
        self.trail = []
        fn(case)
        if self.trail: mc.seen(self.trail)
        self.trail = None
        if not self.leak:
            mc.S.add("transitions", len(case[2]))
            return case
        # a leak grows on every repeat; caches and free lists settle
        for collect in (False, True):
            for k in range(2): fn(case)
            grows = []
            for k in range(24 if collect else 6):
                base = self.bytes()
                fn(case)
                if collect: gc.collect()
                grows.append(self.bytes() - base)
                if grows[-1] <= 0: break
            if grows[-1] <= 0: break
        mc.need(grows[-1] <= 0, "heap-growth", case, "every repeat keeps more memory, bytes per run:", grows)
        mc.S.add("transitions", len(case[2]))
        return case
    # -- native objects --------------------------------------------------
    def core(self, case):
        self.base = dict(Hitcore.dump_memory())
        self.h, self.mh = [None] * 2, [None] * 2     # model: (object, wrapper number)
        self.b, self.mb = [None] * 2, [None] * 2
        self.w = None
        self.wrap = 0
        Hitcore.set_weight_context(WeightContext())
        if case[1]:
            for k in range(2):
                self.do(["newh", k], case)
                self.do(["newb", k], case)
            for op in (["put", 0, 0, 0], ["put", 0, 1, 1], ["put", 1, 1, 0], ["setx", 0]): self.do(op, case)
        for k in case[2]:
            self.do(OPS[k], case)
            self.compare(case)
        # drop everything, in an order that depends on the case
        order = [(self.h, self.mh, 0), (self.b, self.mb, 0), (self.h, self.mh, 1), (self.b, self.mb, 1)]
        s = sum(case[2]) % 4
        for real, model, k in order[s:] + order[:s]:
            real[k] = model[k] = None
            self.compare(case)
        self.w = None
        mc.need(dict(Hitcore.dump_memory()) == self.base, "native-leak", case, "hits left in memory after everything was dropped")
    def wrapper(self, obj):
        self.wrap += 1
        return (obj, self.wrap)
    def index(self, k, n=None):
        i = -k - 1 if k < 0 else k
        return i if n is None or i < n else None
    def raises(self, f, case, sig):
        try:
            f()
        except (IndexError, TypeError, ValueError, KeyError, RuntimeError, OverflowError):
            return
        raise mc.Bad(sig, "%s: no error was reported" % (case,))
    def do(self, op, case):
        n = op[0]
        h, mh, b, mb = self.h, self.mh, self.b, self.mb
        if n == "newh": h[op[1]], mh[op[1]] = Hitcore(), self.wrapper(Obj())
        elif n == "delh": h[op[1]] = mh[op[1]] = None
        elif n == "alias": h[op[1]], mh[op[1]] = h[op[2]], mh[op[2]]
        elif n == "reinit":
            if h[op[1]] is not None: h[op[1]].__init__()
        elif n == "blank":
            x = Hitcore.__new__(Hitcore)
            self.raises(lambda: x.get("x"), case, "blank-get")
            self.raises(lambda: x.set("x", 1.0), case, "blank-set")
            y = Bunchcore.__new__(Bunchcore)
            for f in (lambda: y.length(), lambda: y.get_item(0), lambda: y.moment(["x"], {}), lambda: y.del_item(0)):
                self.raises(f, case, "blank-bunch")
            if b[0] is not None:
                b[0].set_item(x, 0)
                if mb[0]: mb[0][0] = None
                else: mb[0].append(None)
        elif n == "newb": b[op[1]], mb[op[1]] = Bunchcore(), []
        elif n == "delb": b[op[1]] = mb[op[1]] = None
        elif n == "reinitb":
            if b[op[1]] is not None: b[op[1]].__init__()
        elif n == "put":
            if b[op[1]] is None: return
            if h[op[2]] is None:
                self.raises(lambda: b[op[1]].set_item(None, 0), case, "put-none")
                return
            b[op[1]].set_item(h[op[2]], op[3])
            i = self.index(op[3])
            while len(mb[op[1]]) <= i: mb[op[1]].append(None)
            mb[op[1]][i] = mh[op[2]][0]
        elif n == "get":
            if b[op[2]] is None: return
            i = self.index(op[3], len(mb[op[2]]))
            if i is None:
                self.raises(lambda: b[op[2]].get_item(op[3]), case, "get-range")
                return
            got = b[op[2]].get_item(op[3])
            want = mb[op[2]][i]
            mc.need((got is None) == (want is None), "get-value", case)
            h[op[1]], mh[op[1]] = got, None if want is None else self.wrapper(want)
        elif n == "self":
            if b[op[1]] is None or not mb[op[1]]: return
            x = b[op[1]].get_item(0)
            if x is not None: b[op[1]].set_item(x, 0)
        elif n == "cross":
            if b[0] is None or b[1] is None or not mb[0] or mb[0][0] is None: return
            b[1].set_item(b[0].get_item(0), 1)
            while len(mb[1]) <= 1: mb[1].append(None)
            mb[1][1] = mb[0][0]
        elif n == "rm":
            if b[op[1]] is None: return
            i = self.index(op[2], len(mb[op[1]]))
            if i is None: self.raises(lambda: b[op[1]].del_item(op[2]), case, "rm-range")
            else:
                b[op[1]].del_item(op[2])
                del mb[op[1]][i]
        elif n == "rmend":
            if b[op[1]] is None: return
            k = len(mb[op[1]])
            for i in (k, k + 1, 10 ** 6, -k - 1, -10 ** 6, 2 ** 31, 2 ** 32, -2 ** 32 - 1, 2 ** 62, 2 ** 70, -2 ** 70):
                self.raises(lambda: b[op[1]].del_item(i), case, "rm-range")
                self.raises(lambda: b[op[1]].get_item(i), case, "get-range")
            if h[0] is not None:
                for i in (2 ** 62, 2 ** 70, -2 ** 70): self.raises(lambda: b[op[1]].set_item(h[0], i), case, "set-range")
        elif n == "setx":
            if h[op[1]] is not None:
                mh[op[1]][0].x += 1.5
                h[op[1]].set("x", mh[op[1]][0].x)
        elif n == "stats":
            if b[op[1]] is None: return
            xs = [o.x for o in mb[op[1]] if o is not None]
            if xs:
                mc.near(b[op[1]].moment(["x"], {"x": 0.0}), sum(xs) / len(xs), "stats", case)
                b[op[1]].covariance_matrix(["x", "y"], {"x": 0.0})
                b[op[1]].moment_tensor(["x", "y"], 2)
            b[op[1]].index_by_power(2, 3)
            for f in (lambda: b[op[1]].moment(["nope"], {}), lambda: b[op[1]].moment(["x"], {"x": "y"}), lambda: b[op[1]].moment("x", {}),
                      lambda: b[op[1]].moment_tensor([], 2), lambda: b[op[1]].moment_tensor(["x"], 0),
                      lambda: b[op[1]].moment_tensor(["x"], -1), lambda: b[op[1]].index_by_power(2, 0),
                      lambda: b[op[1]].index_by_power(-1, 2), lambda: b[op[1]].moment([u"\u03b1"], {}), lambda: b[op[1]].moment([1], {})):
                self.raises(f, case, "stats-error")
        elif n == "cut":
            if b[op[1]] is not None:
                b[op[1]].cut_double("x", operator.gt, 1e9, True)
                b[op[1]].cut_double("x", operator.gt, 1e9, False)
                self.raises(lambda: b[op[1]].cut_double("nope", operator.gt, 1.0, False), case, "cut-name")
                self.raises(lambda: b[op[1]].cut_double("x", 3, 1.0, False), case, "cut-callable")
        elif n == "cutrm":
            if b[op[1]] is None: return
            bc = b[op[1]]
            def comp(a, c):
                while bc.length(): bc.del_item(0)
                return True
            had = any(o is not None for o in mb[op[1]])
            bc.cut_double("x", comp, 0.0, False)
            if had: mb[op[1]] = []
        elif n == "cutraise":
            if b[op[1]] is None or not any(o is not None for o in mb[op[1]]): return
            def boom(a, c): raise ValueError()
            self.raises(lambda: b[op[1]].cut_double("x", boom, 0.0, False), case, "cut-raise")
            self.raises(lambda: b[op[1]].cut_double("x", lambda a, c: None, 0.0, False), case, "cut-nonbool")
        elif n == "errors":
            for x in h:
                if x is None: continue
                self.raises(lambda: x.get("nope"), case, "get-name")
                self.raises(lambda: x.set("nope", 1.0), case, "set-name")
                self.raises(lambda: x.set("x", "a"), case, "set-type")
                self.raises(lambda: x.set("pid", 2 ** 40), case, "set-int")
                self.raises(lambda: x.get(1), case, "get-type")
                x.get_variables(), x.set_variables()
            for x in b:
                if x is None: continue
                self.raises(lambda: x.set_item(None, 0), case, "set-none")
                self.raises(lambda: x.set_item(Hitcore(), "a"), case, "set-index-type")
                self.raises(lambda: x.get_item(1.0), case, "get-index-type")
                self.raises(lambda: x.set_item(Hitcore()), case, "set-arguments")
            for f in (lambda: Hitcore.set_weight_context(None), lambda: Hitcore.set_weight_context(3), lambda: Hitcore.set_weight_context()):
                self.raises(f, case, "context-type")
        elif n == "neww":
            self.w = WeightContext()
            self.w.set_weight(2.0, 1, 2, 3)
        elif n == "switch":
            if self.w is not None:
                Hitcore.set_weight_context(self.w)
                Hitcore.set_weight_context(self.w)
                for x in h:
                    if x is not None: x.set("global_weight", 1.0)
        elif n == "sumw":
            w = Hitcore.get_weight_context()
            if self.w is not None: w = (w + self.w) * 2.0 / self.w - self.w
            self.w = ~w
            for f in (lambda: w + "a", lambda: w + None, lambda: w < 1):
                try: f()
                except (NotImplementedError, TypeError): pass
            w == w, w != self.w
        elif n == "delw": self.w = None
        elif n == "handle": self.w = Hitcore.get_weight_context()
    def compare(self, case):
        refs = {}
        seen = set()
        objs = {}
        for m in self.mh:
            if m is None: continue
            objs[id(m[0])] = m[0]
            if m[1] not in seen:
                seen.add(m[1])
                refs[id(m[0])] = refs.get(id(m[0]), 0) + 1
        for lst in self.mb:
            for o in lst or []:
                if o is not None:
                    objs[id(o)] = o
                    refs[id(o)] = refs.get(id(o), 0) + 1
        now = dict(Hitcore.dump_memory())
        extra = [c for a, c in now.items() if a not in self.base]
        for a, c in self.base.items():
            mc.need(now.get(a) == c, "foreign-reference", case, "an unrelated hit's reference count moved", c, now.get(a))
        mc.need(sorted(extra) == sorted(refs.values()), "reference-counts", case,
                "native counts", sorted(extra), "model", sorted(refs.values()))
        if self.trail is not None:
            self.trail.append((sorted(refs.values()), [m and m[0].x for m in self.mh], [b and [o and o.x for o in b] for b in self.mb]))
        for x, m in zip(self.h, self.mh):
            mc.need((x is None) == (m is None), "handle", case)
            if x is not None: mc.need(x.get("x") == m[0].x, "value", case, x.get("x"), m[0].x)
        if self.h[0] is not None and self.h[1] is not None:
            mc.need((self.h[0] == self.h[1]) == (self.mh[0][0] is self.mh[1][0]), "identity", case)
            mc.need((self.h[0] != self.h[1]) == (self.mh[0][0] is not self.mh[1][0]), "identity", case)
        for x, m in zip(self.b, self.mb):
            mc.need((x is None) == (m is None), "handle", case)
            if x is None: continue
            mc.need(x.length() == len(m), "length", case, x.length(), len(m))
            for i, o in enumerate(m):
                got = x.get_item(i)
                mc.need((got is None) == (o is None), "item", case, i)
                if o is not None: mc.need(got.get("x") == o.x, "item-value", case, i)
    # -- hits and bunches ------------------------------------------------
    def hit(self, case):
        base = dict(Hitcore.dump_memory())
        Hitcore.set_weight_context(WeightContext())
        self.hits = [Hit.new_from_dict({"x": 1.0, "event_number": 1}), Hit.new_from_dict({"x": 2.0, "event_number": 2})]
        self.bs = [Bunch.new_from_hits(self.hits)]
        for k in case[2]: self.hdo(HOPS[k], case)
        live = {}
        for b in self.bs:
            for x in b.hits(): live[id(x)] = x
        for x in self.hits: live[id(x)] = x
        gc.collect(0)
        now = [a for a in Hitcore.dump_memory() if a not in base]
        mc.need(len(now) == len(live), "live-hits", case, "native hits", len(now), "python hits", len(live))
        if sum(case[2]) % 2: self.bs = None
        del live
        x = None
        b = None
        self.hits = None
        self.bs = None
        mc.need(dict(Hitcore.dump_memory()) == base, "native-leak", case, "hits left in memory")
    def hdo(self, op, case):
        n, hits, bs = op[0], self.hits, self.bs
        b = bs[-1] if bs else None
        if n == "new": hits.append(Hit())
        elif n == "dup":
            if hits: hits.append(copy.deepcopy(hits[-1]))
        elif n == "pickle":
            if hits: hits.append(pickle.loads(pickle.dumps(hits[0])))
        elif n == "fromdict":
            if hits: hits.append(eval(repr(hits[0])))
        elif n == "ctx": Hitcore.set_weight_context(~Hitcore.get_weight_context())
        elif n == "drophit":
            if hits: del hits[-1]
        elif n == "drophits": del hits[:]
        elif n == "dropbunch":
            if bs: del bs[-1]
        elif n == "badset":
            for x in hits[:1]:
                try: x.set("pid", "a")
                except Exception: pass
        elif b is None: return
        elif n == "append":
            if hits: b.append(hits[-1])
        elif n == "append2":
            b.append(Hit.new_from_dict({"x": 5.0}))
            if hits: b.append(hits[0])
        elif n == "set":
            if hits and len(b): b[op[1]] = hits[0]
        elif n == "del":
            try: del b[op[1]]
            except IndexError: pass
        elif n == "remove": b.conditional_remove({"x": 1.5}, operator.ge)
        elif n == "cut": b.cut({"x": 1.5}, operator.ge)
        elif n == "cutg": b.cut({"x": 1.5}, operator.lt, global_cut=True)
        elif n == "cutself":
            def comp(a, c):
                while len(b): del b[0]
                return True
            b.cut({"x": 0.0}, comp)
        elif n == "tcut": b.transmission_cut(bs[0])
        elif n == "copybunch": bs.append(copy.deepcopy(b))
        elif n == "stats":
            try:
                b.moment(["x", "x"]), b.mean(["x", "p"]), b.covariance_matrix(["x", "px"])
            except ZeroDivisionError: pass
        elif n == "iter":
            for x in b: x.get("p")
            hits.extend(b.hits()[:1])
        elif n == "split":
            d = b.split("event_number")
            for k in d: bs.insert(0, d[k])
            d = None
    def churn(self, case):
        k = case[2][0]
        bc = Bunchcore()
        for i in range(k % 13 + 1):
            for j in range(40): bc.set_item(Hitcore(), (i * 7 + j * j) % 60)
            while bc.length() > i: bc.del_item((k + i) % bc.length())
        n = sum(1 for i in range(bc.length()) if bc.get_item(i) is not None)
        mc.need(len(Hitcore.dump_memory()) >= n, "churn", case)
        del bc

if __name__ == "__main__":
    mc.main(C08)
