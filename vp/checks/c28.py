import math
from ..check import Check, Model

LOW, HIGH, BAND, STOP = range(4)
RATES = [30, 250, 500, 1000, 1, 0, 62.5]


def tan(d):
    return math.tan(math.radians(d))


def order(p, s):
    """the order as a real number"""
    a, b = tan(p), tan(s)
    return math.log(9.973614) / math.log(max(a, b) / min(a, b))


def window(ns, nw, wc):
    """first sample and the one after the last"""
    n = ns if nw == 0 or nw > ns else nw
    h = n // 2 if n % 2 else n // 2 - 1
    m = wc or ns // 2
    return max(0, m - h), min(ns, m + h + 1)


class C(Check):
    trace_module = "TrFilter"
    models = [Model("MCFilter", thorough={"DS": "{8, 10, 12, 15, 18, 20, 22, 25, 30, 33, 35, 40, 45, 48, 50, 55, 60, 65}"})]
    assumptions = ["orders up to 4 (one corner) and 3 (two corners), corners between 8 and 70 of 90 degrees of the sampling rate",
                   "samples are whole numbers; filtered samples are compared to within .003",
                   "responses in the frequency domain are compared at the sampling rate of 2 pi, but for the gain at frequency 0"]

    def corners(self, rng, type, N):
        """corners at which the arithmetic of the specification is accurate enough"""
        if type in (LOW, HIGH):
            return [rng.randrange((8, 8, 10, 15, 20)[N], 66), 0]
        w = (0, 10, 15, 20)[N]
        a = rng.randrange(10 if N < 3 else 15, 66 - w)
        return [a, rng.randrange(a + w, 67)]

    def auto(self, rng, type, most):
        for _ in range(500):
            n = 2 if type in (LOW, HIGH) else 4
            c = sorted(rng.sample(range(10, 68), n))
            if type == LOW:
                o, k = [order(c[0], c[1])], [c[0], 0]
            elif type == HIGH:
                o, k = [order(c[1], c[0])], [c[1], 0]
            elif type == BAND:
                o, k = [order(c[1], c[0]), order(c[2], c[3])], [c[1], c[2]]
            else:
                o, k = [order(c[0], c[1]), order(c[3], c[2])], [c[0], c[3]]
            N = max(math.ceil(x) for x in o)
            w = (0, 10, 15, 20, 99)
            if N <= most and all(abs(x - round(x)) > .02 for x in o) and k[0] >= (8, 8, 10, 15, 20)[N] \
                    and (n == 2 or k[1] - k[0] >= w[N]):
                return c, N, k
        return None

    def samples(self, rng, n):
        k = rng.random()
        if k < .15:
            v = rng.randrange(-9, 10)
            return [v] * n
        if k < .3:
            x = [0] * n
            x[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([9, -7])
            return x
        if k < .4:
            return [rng.randrange(0, 10) if j % 2 else rng.randrange(-9, 1) for j in range(n)]
        if k < .5:
            return [j % 7 - 3 for j in range(n)]
        return [rng.randrange(-9, 10) for _ in range(n)]

    def filt(self, f, xs, ns, nw, wc, **more):
        w0, w1 = window(ns, nw, wc)
        wl = w1 - w0
        return dict({"op": "filt", "xs": xs, "ns": ns, "nw": nw, "wc": wc, "w0": w0, "wl": wl, "ex": 0, "neg": 0}, **f, **more)

    def one(self, rng, dmn):
        type = rng.randrange(4)
        most = 4 if type in (LOW, HIGH) else 3
        pad = rng.randrange(4)
        fs = rng.choice(RATES)
        ops = []
        a = self.auto(rng, type, most) if rng.random() < .4 else None
        if a:
            cs, N, k = a
        else:
            N = rng.randrange(1, most + 1)
            k = self.corners(rng, type, N)
        f = {"type": type, "dmn": dmn, "pad": pad, "fs": fs, "N": N, "cs": k}
        m = 3 * (N * (1 if k[1] == 0 else 2) + 1)
        ops.append({"op": "mkfilt", "type": type, "N": N, "fs": fs, "d1": k[0], "d2": k[1]})
        lo = rng.choice([1, 2, 3, 3, m + 1, m + 1])
        ns = lo + rng.randrange(0, 25) + rng.choice([0, 0, 1, 2, 7, 20])
        nt = rng.choice([1, 1, 2, 3])
        nw = rng.choice([0, 0, ns, ns + 5, rng.randrange(1, ns + 1), rng.randrange(1, ns + 1)])
        wc = rng.choice([0, 0, rng.randrange(0, ns)])
        w0, w1 = window(ns, nw, wc)
        wl = w1 - w0

        def place():
            """a window of wl samples somewhere else"""
            ns2 = wl + rng.choice([0, 1, 3, 11])
            opt = [] if rng.random() < .9 else [(ns, nw, wc, w0)]
            for v in range(0, ns2 + 2):
                for c in range(0, ns2):
                    a, b = window(ns2, v, c)
                    if b - a == wl:
                        opt.append((ns2, v, c, a))
            return rng.choice(opt) if opt else (ns, nw, wc, w0)
        xs = [self.samples(rng, ns) for _ in range(nt)]
        if nt > 1 and rng.random() < .2:
            xs[1] = list(xs[0])
        ops.append(self.filt(f, xs, ns, nw, wc))
        wins = [x[w0:w0 + wl] for x in xs]
        for _ in range(rng.choice([1, 2, 3])):
            # the same windows elsewhere, among other traces, and otherwise scaled
            ns2, nw2, wc2, p = place()
            pick = [rng.choice(wins) for _ in range(rng.choice([1, 1, 2]))]
            ys = []
            for w in pick:
                y = [rng.choice([0, rng.randrange(-999, 1000)]) for _ in range(ns2)]
                y[p:p + wl] = w
                ys.append(y)
            g = dict(f)
            if a and rng.random() < .7:
                c = list(cs)
                if rng.random() < .5:
                    rng.shuffle(c)
                g.update(N=0, cs=c)
            e = rng.random()
            ops.append(self.filt(g, ys, ns2, nw2, wc2))
            ops[-1].update(ex=rng.choice([0, 1, -3, 12, -20, 40]) if e < .6 else 0, neg=int(.4 < e < .8))
        if a and len(ops) > 2 and rng.random() < .3:
            ops.insert(1, dict(ops[-1]))    # the order is found first
        for o in ops:
            if o["op"] == "filt" and o["N"] == 0:
                o["sorted"] = sorted(o["cs"])
        return ops

    def gains(self, rng):
        ops = []
        for _ in range(6):
            type = rng.randrange(4)
            N = rng.randrange(1, (4 if type in (LOW, HIGH) else 3) + 1)
            k = self.corners(rng, type, N)
            n = rng.choice([3, 5, 9, 15, 45, 45])
            i = rng.choice([i for i in range(0, n) if 180 * i // n <= 68])
            ops.append({"op": "fgain", "type": type, "N": N, "fs": 0, "d1": k[0], "d2": k[1], "n": n, "i": i,
                        "ph": 0 if i == 0 else rng.randrange(n), "pad": rng.randrange(4)})
        return ops

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 10
        sc = [{"P": 1, "piol": 0, "ops": self.one(rng, 0)} for _ in range(260 * q)]
        sc += [{"P": 1, "piol": 0, "ops": self.one(rng, 1)} for _ in range(80 * q)]
        sc += [{"P": 1, "piol": 0, "ops": self.gains(rng)} for _ in range(60 * q)]
        sc.append({"P": 1, "piol": 0, "tags": ["freq-rate"],
                   "ops": [{"op": "fgain", "type": LOW, "N": 2, "fs": 30, "d1": 30, "d2": 0, "n": 9, "i": 3, "ph": 0, "pad": 0}]})
        return sc

    def nontrivial(self, sc):
        return any(o["op"] == "filt" and (len(o["xs"]) > 1 or o["wl"] < o["ns"]) for o in sc["ops"]) or sc["ops"][0]["op"] == "fgain"
