import os, re
from ..check import Check
from ..build import VERIF

_t = re.sub(r"\\\*.*", "", open(os.path.join(VERIF, "spec", "Text.tla")).read())
TOA = [int(x) for x in re.findall(r"\d+", _t[_t.index("ToA == <<") + 9:_t.index(">>", _t.index("ToA == <<"))])]
pA = lambda c: 32 <= c <= 126
pE = lambda c: pA(TOA[c])


def rl(bs):
    out = []
    for b in bs:
        if out and out[-1][0] == b:
            out[-1][1] += 1
        else:
            out.append([b, 1])
    return out


class C(Check):
    trace_module = "TrText"
    assumptions = ["the header has more printable characters in its own encoding than in the other"]

    def text(self, rng, enc, codes, full=False):
        own, other = (pA, pE) if enc == "ascii" else (pE, pA)
        while True:
            n = rng.choice([1, 5, 40, 79, 80, 160, 3199, 3200])
            bs = []
            while len(bs) < n:
                k = rng.random()
                c = rng.choice(codes)
                if k < .3:
                    c = rng.choice([x for x in codes if own(x)])
                bs += [c] * rng.choice([1, 1, 1, 3, n // 20 + 1])
            bs = bs[:n]
            if rng.random() < .3 and n < 3200:
                bs += [0x20 if enc == "ascii" else 0x40] * (3200 - n)
            if sum(map(own, bs)) > sum(map(other, bs)):
                return bs

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 8
        sc = [{"P": 1, "ops": [{"op": "chr"}]}]
        for k in range(140 * q):
            P = rng.choice([1, 1, 2, 3])
            ops = []
            for j in range(2):
                enc = rng.choice(["ascii", "ebcdic"])
                bs = self.text(rng, enc, range(0, 256) if rng.random() < .5 else
                               ([x for x in range(32, 127)] if enc == "ascii" else [x for x in range(256) if pE(x)]))
                ops.append({"op": "fput", "name": "f%d" % j, "ns": 1, "trl": rl(bs), "enc": enc, "traces": [], "inc": 1000})
                ops.append({"op": "ropen", "o": "r%d" % j, "name": "f%d" % j, "api": rng.choice(["cc", "direct", "c"])})
                ops.append({"op": "rtext", "o": "r%d" % j})
                if rng.random() < .5:
                    ops.append({"op": "rclose", "o": "r%d" % j})
            if rng.random() < .6:
                ops.append({"op": "wopen", "o": "w", "name": "w", "api": rng.choice(["cc", "direct", "c"])})
                ops.append({"op": "wns", "o": "w", "n": 1})
                ops.append({"op": "winc", "o": "w", "us": 1000})
                for _ in range(rng.randrange(0, 3)):
                    bs = self.text(rng, "ascii", range(1, 127))
                    bs = bs + rng.choice([[], [], [65], [66, 67] * 500])
                    if sum(map(pA, bs[:3200])) > sum(map(pE, bs[:3200])):
                        ops.append({"op": "wtext", "o": "w", "text": "".join(map(chr, bs)), "rl": rl(bs)})
                ops.append({"op": "wclose", "o": "w"})
                ops.append({"op": "ropen", "o": "r", "name": "w", "api": rng.choice(["cc", "direct", "c"])})
                ops.append({"op": "rtext", "o": "r"})
            sc.append({"P": P, "ops": ops})
        return sc

    def project(self, sc, trace):
        t = dict(trace)
        t["ev"] = [{k: v for k, v in e.items() if k != "text"} for e in trace["ev"]]
        return t
