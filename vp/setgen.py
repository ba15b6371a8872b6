"""Random histories of file sets."""
import struct
from .segygen import SegyGen, FLOATS, LOC, SCALEW, s16, s32, fnv_key
from .distgen import DistGen, TYPES


def f2w(x):
    return s32(struct.unpack(">I", struct.pack(">f", x))[0])


class SetGen:
    def __init__(self, rng, P):
        self.rng, self.P = rng, P
        self.sg = SegyGen(rng, P)
        self.sg.start()
        self.dg = DistGen(rng, P)
        self.dg.spread = min(self.dg.spread, 3000)
        self.cmp = True       # midpoints share the scale of the coordinates
        self.n = 0
        self.sorted = False
        self.files = []

    def hdr(self, keys):
        r = self.rng
        if not keys:
            return self.sg.rawhdr()
        w = dict((k, v) for k, v in self.sg.rawhdr())
        k = dict((a, b) for a, b in self.dg.rawhdr())
        for m in (14, 20, 21, 22, 23, 26, 27):
            lo = (LOC[m] - 1) // 2
            w.pop(lo, None)
            w.pop(lo + 1, None)
        if w.get(35, 0) != k.get(35, 0) or not self.cmp:
            for m in (24, 25):
                lo = (LOC[m] - 1) // 2
                w.pop(lo, None)
                w.pop(lo + 1, None)
            w.pop(35, None)
        w.update(k)
        return [[a, b] for a, b in sorted(w.items()) if b]

    def trace(self, ns, finite):
        r = self.rng
        if not finite:
            return self.sg.trace(ns)
        k = r.random()
        t = [f2w(float(r.randrange(-50, 51)) * r.choice([1, .5, .1])) for _ in range(ns)]
        if k < .3:
            for q in range(r.randrange(ns + 1)):
                t[q] = 0
        return t

    def put(self, name, ns, inc, nt, keys=False, finite=False, fmt=5):
        t = self.sg.text()[:3200]
        self.files.append(name)
        return {"op": "fput", "name": name, "ns": ns, "inc": inc, "fmt": fmt, "text": t, "key": fnv_key(t), "extra": 0,
                "traces": [{"h": self.hdr(keys), "t": self.trace(ns, finite)} for _ in range(nt)]}

    def text(self, o):
        t = self.sg.text()
        return {"op": "stext", "o": o, "text": t, "key": fnv_key(t)}

    def chainop(self, o, nsmin):
        r = self.rng
        self.n += 1
        k = r.random()
        if k < .45 or nsmin < 4:
            return {"op": "staper", "o": o, "id": self.n, "f": r.choice(["lin", "cos", "cos2"]),
                    "l": r.randrange(1, min(8, nsmin + 1)), "r": r.randrange(0, min(8, nsmin + 1))}
        if k < .8 or nsmin < 12:
            return {"op": "sagc", "o": o, "id": self.n, "f": r.choice(["rms", "tri", "mean"]),
                    "win": r.randrange(1, nsmin), "target": r.randrange(1, 4)}
        ty, N, dmn = r.randrange(4), r.randrange(1, 4), 1 if r.random() < .3 or nsmin > 100 else 0
        f = {"op": "sfilt", "o": o, "id": self.n, "type": ty, "dmn": dmn, "pad": r.randrange(4), "fs": 20}
        if r.random() < .35:
            f["cs"] = [r.randrange(100, 200), r.randrange(350, 450)]
            f["cs"] += [r.randrange(550, 650), r.randrange(750, 900)] if ty > 1 else []
            if r.random() < .3:
                r.shuffle(f["cs"])
        else:
            f.update({"N": N, "c1": r.randrange(100, 300), "c2": r.randrange(400, 700) if ty > 1 else 0})
        w = r.random() < .4
        f.update({"nw": r.randrange(1, nsmin + 4) if w else 0, "wc": r.randrange(0, nsmin) if w and r.random() < .6 else 0})
        return f

    def sort(self, o, api, single=False):
        r = self.rng
        op = {"op": "ssort", "o": o}
        # an order with ties is only told apart from its predecessor's by the trace numbers
        single = single and not self.sorted
        self.sorted = True
        if r.random() < .2:
            op["by"] = r.choice([[26], [26, 27], [20], [14, 26], [27, 26]]) + ([] if single and r.random() < .5 else [1])
            if r.random() < .5 and api != "c":
                op["rule"] = [1, 2] + r.sample([26, 27, 20, 14, 21, 3], 6)
        else:
            op["type"] = r.choice(TYPES)
        return op

    def memlim(self, ns):
        # bytes for a block of a few traces; the rules take a few hundred bytes each
        r = self.rng
        return r.choice([0, 0, 1, 2, 3, 5, 9]) * (1200 + 16 * ns) if r.random() < .8 else 100000
