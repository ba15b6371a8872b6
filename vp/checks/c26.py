import math
from ..check import Check, Model
from ..segygen import fnv_key
from ..setgen import SetGen, f2w

TEXT = "ExSeisDat 4d-bin file.\n"


def apart(a, b):
    return math.isqrt(100 * ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2)) / 100, \
        math.isqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 2 == (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def dsr(x, y):
    """in units; whether it is exact"""
    f, r = [(apart(x[0], y[p])[0] + apart(x[1], y[1 - p])[0], apart(x[0], y[p])[1] and apart(x[1], y[1 - p])[1])
            for p in (0, 1)]
    v = min(f, r)
    return v


class C(Check):
    trace_module = "TrFourD"
    models = [Model("MCFourD", thorough={"XS": "{0, 1, 3, 4}", "N2": 3, "DMAX": 3})]
    tools = ("fourdbin",)
    assumptions = ["coordinates are small enough to be exact in single precision, in tenths or whole units",
                   "the limit is not nearer than .05 to a distance unless that is a whole number",
                   "three traces per process in each survey", "the tool's communicator is that of all processes"]

    def geometry(self, rng, P):
        whole = rng.random() < .7
        u = 10 if whole else 1
        base = rng.choice([0, 0, 100, 150000]) * 10 if whole else rng.choice([0, 500]) * 10
        span = rng.choice([0, 3, 12, 40, 150])
        tall = rng.choice([0, 2, 10])
        cable = rng.choice([0, 1, 5, 5, 25, 90])
        n1, n2 = (3 * P + rng.choice([0, 1, P, rng.randrange(0, 14)]) for _ in range(2))
        far = rng.random() < .2

        def point():
            return [base + u * (rng.randrange(-span, span + 1) + (rng.choice([0, 0, 700]) if far else 0)),
                    base // 2 + u * rng.randrange(-tall, tall + 1)]

        def shot():
            s = point()
            if rng.random() < .15:
                return [s, point()]
            d = rng.choice([1, 1, -1])
            return [s, [s[0] + d * u * cable, s[1] + u * rng.choice([0, 0, rng.randrange(-3, 4)])]]
        a = [shot() for _ in range(n1)]
        b = []
        jit = rng.choice([0, 1, 1, 3])
        rev = rng.choice([0, .3, .3, 1])
        for _ in range(n2):
            if rng.random() < .75:
                x = [list(p) for p in rng.choice(a)]
                if rng.random() < rev:
                    x = x[::-1]
                for p in x:
                    for q in (0, 1):
                        p[q] += rng.choice([u, u, 1 if not whole else u]) * rng.randrange(-jit, jit + 1)
                b.append(x)
            else:
                b.append(shot())
        return whole, a, b

    def one(self, rng, P):
        g = SetGen(rng, P)
        whole, a, b = self.geometry(rng, P)
        lines = rng.random() < .3
        many = rng.choice([1, 2, 4])
        line = [[(rng.randrange(many) + 1, rng.randrange(2)) for _ in s] for s in (a, b)]
        near = [min([dsr(x, y) for q, y in enumerate(b) if not lines or line[0][p] == line[1][q]] or [(9e9, True)])
                for p, x in enumerate(a)]
        ds = [dsr(x, y) for x in a for y in b]
        for _ in range(40):
            k = rng.random()
            lim = rng.choice([0.5, 1, 2, 5, 7.5, 20, 60]) if k < .5 else round(rng.choice(near)[0] + rng.choice([0, .25, -.25, 1, -1]), 2)
            if k > .95:
                lim = 0
            if 0 <= lim < 150 and all(abs(d - lim) > .05 or (d == lim and ex and whole) for d, ex in ds):
                break
        else:
            return None
        ops = []
        for name, s, ln in (("a.segy", a, line[0]), ("b.segy", b, line[1])):
            ns = rng.choice([1, 1, 2, 5])
            o = g.put(name, ns, rng.choice([1000, 2000, 4000]), len(s))
            for t, (x, l) in enumerate(zip(s, ln)):
                w = dict((k, v) for k, v in o["traces"][t]["h"])
                for k in list(w):
                    if k in (36, 37, 38, 39, 40, 41, 42, 43, 90, 91, 92, 93, 94, 95, 96, 97, 35):
                        del w[k]
                sc = rng.choice([0, 1, -10]) if whole else -10
                w[35] = sc

                def put(loc, v):
                    lo = (loc - 1) // 2
                    for k, z in ((lo, v >> 16), (lo + 1, v)):
                        z &= 0xffff
                        w[k] = z - 65536 if z >> 15 else z
                for loc, v in zip((73, 77, 81, 85), x[0] + x[1]):
                    put(loc, v if sc == -10 else v // 10)
                put(189, l[0])
                put(193, l[1])
                o["traces"][t] = {"h": [[k, v] for k, v in sorted(w.items()) if v],
                                  "t": [f2w(float(t + 1))] + [f2w(float(rng.randrange(99))) for _ in range(ns - 1)]}
            ops.append(o)
        pr = rng.random() < .7
        verb = rng.random() < .15
        args = ["-a", "@a.segy", "-b", "@b.segy", "-c", "@out/c.segy", "-d", "@out/d.segy"]
        args += [] if lim == 1 and rng.random() < .5 else ["-t", repr(lim)]
        args += ([] if pr else ["-p"]) + (["-x"] if lines else []) + (["-v"] if verb else [])
        ops.append({"op": "tool", "t": "fourdbin", "mk": "out", "mktmp": 1, "dump": "out", "cd": 1, "args": args,
                    "in1": "a.segy", "in2": "b.segy", "limit": int(round(lim * 100)), "lines": lines, "print": pr,
                    "text": fnv_key(TEXT)})
        return ops

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 8
        sc = []
        while len(sc) < 450 * q:
            P = [1, 2, 3, 4, 5, 2, 3][len(sc) % 7]
            ops = self.one(rng, P)
            if ops is None:
                continue
            s = {"P": P, "ops": ops}
            if rng.random() < .25:
                s["delay"] = rng.randrange(1, 1 << 30)
            sc.append(s)
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
