"""Random inputs of the collective operations."""
TYPES = list(range(35, 44))
NEED = [20, 21, 22, 23, 14, 26, 27]
LTN, GTN, COPY = 1, 2, 0


class DistGen:
    def __init__(self, rng, P):
        self.rng, self.P = rng, P
        k = rng.random()
        self.spread = 1 if k < .3 else 3 if k < .6 else 20 if k < .8 else 7000

        # anything the quantities can hold, and neighbours of it
        self.wide = self.widec = None

        # far apart and nearly the same distance
        self.far = rng.randrange(4200, 7000) if rng.random() < .2 else 0

    def widen(self, lines, coords):
        r = self.rng
        if lines:
            b = r.choice([2**31 - 3, 2**30, 2**24, 65535, 32767, -32768, -2**31 + 2, r.randrange(-2**31 + 5, 2**31 - 5)])
            self.wide = [x for x in (b, b + 1, b + 2, b - 1, -b, 0, 1, -1, b // 2 + 2**30) if abs(x) < 2**31]
            if r.random() < .6:         # a few values, so that lines are often equal
                self.wide = r.sample([2**31 - 1, -2**31 + 1, 2**30 + 7, -2**30 - 5, 0, 1] if r.random() < .6 else self.wide,
                                     r.choice([2, 2, 3]))
        if coords:
            b = r.randrange(-2147000000, 2147000000)
            self.widec = [b, b + 1, b - 1, b + 10000, b + 5, -b, 0, 1]
            self.far = 0

    def coord(self, m=0):
        r = self.rng
        if self.widec:
            return r.choice(self.widec)
        if self.far:
            return {20: -self.far, 22: r.choice([self.far, self.far, -self.far])}.get(m, r.randrange(3)) * 10000
        return r.randrange(-self.spread, self.spread + 1) * (10000 if r.random() < .8 or self.spread > 4999 else 5000)

    def integer(self):
        if self.wide:
            return self.rng.choice(self.wide)
        return self.rng.randrange(-self.spread, self.spread + 1)

    def value(self, m):
        return self.coord(m) if m in (20, 21, 22, 23, 24, 25, 15, 16, 17, 18, 19, 11) else self.integer()

    def sizes(self, lo, hi):
        r, P = self.rng, self.P
        k = r.random()
        if k < .3:
            n = r.randrange(lo, hi + 1)
            return [n] * P
        if k < .5:
            return [lo if r.random() < .6 else r.randrange(lo, hi + 1) for _ in range(P)]
        return [r.randrange(lo, hi + 1) for _ in range(P)]

    def rawhdr(self, il=None, xl=None):
        """sparse words holding the sort keys, whole or tenths"""
        r = self.rng
        w = {}

        def put(loc, v):
            lo = (loc - 1) // 2
            for k, x in ((lo, v >> 16), (lo + 1, v)):
                x &= 0xffff
                x = x - 65536 if x >> 15 else x
                if x:
                    w[k] = x
        sc = r.choice([1, 0, -10, 10])
        if sc == 10 and (self.spread > 1000 or self.far):
            sc = 1
        w[35] = sc
        for loc, m in ((73, 20), (77, 21), (81, 22), (85, 23)):
            v = self.coord(m) // 5000
            if sc == -10:
                put(loc, v * 5)
            elif sc == 10:
                put(loc, v // 20)
            else:
                put(loc, v // 2)
        put(37, self.integer())
        put(189, self.integer() if il is None else il)
        put(193, self.integer() if xl is None else xl)
        return [[k, v] for k, v in sorted(w.items()) if v]

    def fput(self, name, hdrs, ns=0):
        return {"op": "fput", "name": name, "ns": ns, "inc": 4000, "fmt": 5, "text": "A1", "key": "0:0",
                "extra": 0, "traces": [{"h": h, "t": [0] * ns} for h in hdrs]}

    def ropen(self, name, o="r"):
        return {"op": "ropen", "o": o, "name": name, "api": "cc"}
