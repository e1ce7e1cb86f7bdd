import itertools, os
import mc
mc.block_root()
import xboa.common as common

ALPHA = ["k", "y", "K", " ", "\n", "__a__", "\r\n", "."]
DICTS = [{}, {"k": "1"}, {"ky": "V"}, {"k": ""}, {"__a__": 3.5}, {"k": "A", "y": "B"}, {"ky": "A", "k": "B"}, {"y\nk": "J"}, {"__a__": "k"}, {"k": "kk"},
         {"k": "y", "y": "k"}, {"yk": "\n"}, {"\n": "|"}, {"k": "$1\\g"}, {".": "dot"}, {1: 2, "k": None}]

def simultaneous(text, d, order):
    out, i = [], 0
    while i < len(text):
        for k in order:
            if text.startswith(str(k), i):
                out.append(str(d[k])); i += len(str(k)); break
        else:
            out.append(text[i]); i += 1
    return "".join(out)

def sequential(text, d, order):
    for k in order: text = str(d[k]).join(text.split(str(k)))
    return text

class C33(mc.Check):
    pid = "C33"
    level = "model_checking"
    technique = "exhaustive enumeration of templates and key sets through the real function"
    rule = ("all templates of up to 5 (thorough 6) pieces over keys, parts of keys, blanks and both line endings, with 16 sets of keys and values; "
            "output to a new file, an existing longer file and the template itself")
    assumptions = ["where keys overlap, or a value contains a key, any order of substitution is accepted", "lines end in newline or carriage return newline"]
    def cases(self):
        for n in range(0, 7 if self.thorough else 6):
            for t in itertools.product(range(len(ALPHA)), repeat=n): yield list(t)
        for n in (30, 100, 3000):
            for k in range(8): yield [(i * (k + 1) + i // 5 + i * i // 7) % len(ALPHA) for i in range(n)]
    def run_case(self, case):
        text = "".join(ALPHA[i] for i in case)
        a, b = "t%d.in" % os.getpid(), "t%d.out" % os.getpid()
        changed = 0
        for n, d in enumerate(DICTS):
            if len(case) > 4 and (n + sum(case)) % 2: continue
            orders = list(itertools.permutations(d))
            want = set(f(text, d, o) for f in (simultaneous, sequential) for o in orders)
            for mode in range(3 if len(case) < 5 else 1):
                with open(a, "w", newline="") as f: f.write(text)
                if mode == 1:
                    with open(b, "w") as f: f.write("old content\n" * 20)
                d0 = dict(d)
                common.substitute(a, a if mode == 2 else b, d)
                mc.need(d == d0, "keys-changed", case, n)
                with open(a if mode == 2 else b, newline="") as f: got = f.read()
                mc.need(got in want, "wrong-text", case, d, "mode", mode, repr(text), "got", repr(got), "want", repr(sorted(want)))
                if mode != 2:
                    with open(a, newline="") as f: mc.need(f.read() == text, "template-changed", case, d)
                    os.remove(b)
                changed += got != text
                mc.S.add("transitions")
        os.remove(a)
        mc.seen(text)
        return [text, changed]

if __name__ == "__main__":
    mc.main(C33)
