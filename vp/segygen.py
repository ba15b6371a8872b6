"""Random SEG-Y histories: files put there, writers, readers."""
import os, tempfile

FLOATS = [11, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]
ELEV = [15, 16, 17, 18, 19]
COORD = [20, 21, 22, 23, 24, 25]
SHORTS = [7, 8, 9, 12, 13, 28, 29]
LONGS = [3, 4, 5, 6, 10, 14, 26, 27]
ALL = FLOATS + SHORTS + LONGS
COPY, LTN, GTN = 0, 1, 2
DEFAULT = [20, 21, 22, 23, 24, 25, 14, 26, 27, 5]

SCALEW = {11: 100, 15: 34, 16: 34, 17: 34, 18: 34, 19: 34, 20: 35, 21: 35, 22: 35, 23: 35, 24: 35, 25: 35}
LOC = {3: 1, 4: 13, 5: 5, 6: 25, 7: 115, 8: 117, 9: 29, 10: 17, 11: 197, 12: 31, 13: 33, 14: 37, 15: 41, 16: 45,
       17: 49, 18: 61, 19: 65, 20: 73, 21: 77, 22: 81, 23: 85, 24: 181, 25: 185, 26: 189, 27: 193, 28: 211, 29: 203}


def fnv_key(text):
    b = text.encode("latin-1")[:3200].rstrip(b"\0")
    h = 2166136261
    for c in b:
        h = ((h ^ c) * 16777619) & 0xffffffff
    return "%d:%08x" % (len(b), h)


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def s16(x):
    x &= 0xffff
    return x - (1 << 16) if x >> 15 else x


class SegyGen:
    def __init__(self, rng, P, apis=("cc",), maxnt=20, fcomm=False):
        self.rng, self.P = rng, P
        self.apis = apis
        self.maxnt = maxnt
        self.fcomm = fcomm
        self.n = 0
        self.ns = None           # the same number of samples everywhere
        self.refuse = False      # ask for what the format cannot hold, too

    # -- values ----------------------------------------------------------------
    def sample(self):
        r = self.rng
        k = r.random()
        if k < .1:
            return s32(r.choice([0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00001, 1, 0x807fffff, 0x3f800000]))
        if k < .13:
            return s32(0x7f800000 | r.randrange(1, 1 << 22))   # signalling NaN
        return s32(r.getrandbits(32))

    def val(self, m):
        r = self.rng
        if m in FLOATS:
            k = r.random()
            if k < .15:
                return 0
            if k < .4:
                return r.randrange(-20000, 20001) * 10000
            if k < .6:
                return r.randrange(-200000, 200001) * 1000
            if k < .8:
                return r.randrange(-2000000, 2000001) * 100
            return r.randrange(-200000000, 200000001)
        if m in SHORTS:
            return r.choice([0, 1, -1, 32767, -32768, r.randrange(-32768, 32768)])
        return r.choice([0, 1, -1, 2147483647, -2147483647, r.randrange(-2**31 + 1, 2**31)])

    def rawhdr(self):
        """sparse words; scale words of the coordinate groups are proper powers of ten"""
        r = self.rng
        w = {}
        for k in range(r.randrange(0, 12)):
            w[r.randrange(120)] = r.choice([1, -1, 32767, -32768, r.randrange(-32768, 32768)])
        for m in FLOATS:
            lo = (LOC[m] - 1) // 2
            w.pop(lo, None)
            w.pop(lo + 1, None)
        scales = {}
        for sw in (34, 35, 100):
            scales[sw] = r.choice([0, 1, 10, 100, -10, -100, -1000, -10000])
            w[sw] = scales[sw]
        for m in FLOATS:
            if r.random() < .5:
                sc = scales[SCALEW[m]]
                lim = 200000 if sc <= 1 else 200000 // sc
                if sc < -1:
                    lim = 200000 * -sc
                v = r.randrange(-lim, lim + 1)
                lo = (LOC[m] - 1) // 2
                w[lo] = s16(v >> 16)
                w[lo + 1] = s16(v)
        return [[k, v] for k, v in sorted(w.items()) if v]

    def rule(self, write):
        r = self.rng
        k = r.random()
        if k < .12:
            m = [COPY]
            if r.random() < .5:
                m += r.sample(LONGS + SHORTS, r.randrange(0, 4))
            if not write and r.random() < .5:
                m += [x for x in r.sample(FLOATS, 3)]
        elif k < .3:
            m = list(DEFAULT)
        elif k < .4:
            m = list(ALL)
        else:
            m = r.sample(ALL, r.randrange(0, 9))
        if r.random() < .3:
            r.shuffle(m)
        if not write and r.random() < .9:
            m.append(LTN)
        if r.random() < .2:
            m.append(GTN)
        if write and r.random() < .2:
            m.append(LTN)
        return m

    def row(self, rule):
        return [self.rawhdr() if m == COPY else self.rng.randrange(1000) if m in (LTN, GTN) else self.val(m)
                for m in rule]

    def trace(self, ns):
        return [self.sample() for _ in range(ns)]

    def text(self):
        r = self.rng
        k = r.random()
        if k < .1:
            return "Z9" * 1600
        if k < .2:
            return "line of text! " * 300       # longer than a text header
        return "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ") for _ in range(r.randrange(0, 90))) + " 1"

    # -- operations ------------------------------------------------------------
    def put(self, name, ns=None, nt=None, fmt=None, fill=None):
        r = self.rng
        ns = self.ns if self.ns is not None else r.choice([0, 1, 2, 5, 9, 30]) if ns is None else ns
        nt = r.randrange(0, self.maxnt + 1) if nt is None else nt
        t = self.text()[:3200]
        op = {"op": "fput", "name": name, "ns": ns, "inc": r.randrange(1, 32767), "fmt": fmt or r.choice([5, 5, 5, 1]),
              "text": t, "key": fnv_key(t),
              "traces": [{"h": self.rawhdr(), "t": self.trace(ns)} for _ in range(nt)],
              "extra": r.choice([0, 0, 0, 1, 100]) if ns or True else 0}
        if op["extra"] >= 240 + 4 * ns:
            op["extra"] = 0
        self.files[name] = (ns, nt)
        return op

    def junk(self, name):
        self.files[name] = None
        return {"op": "put", "name": name, "bytes": [self.rng.randrange(256) for _ in range(self.rng.choice([0, 1, 3599, 3600, 5000]))]}

    def split_targets(self, lo, hi, lst):
        """disjoint parts of lo..hi-1 for the processes"""
        r, P = self.rng, self.P
        if not lst:
            b = sorted(r.randrange(lo, hi + 1) for _ in range(2 * P))
            segs = [(b[2 * k], b[2 * k + 1] - b[2 * k]) for k in range(P)]
            if r.random() < .5:
                c = [lo] + sorted(r.randrange(lo, hi + 1) for _ in range(P - 1)) + [hi]
                segs = [(c[k], c[k + 1] - c[k]) for k in range(P)]
            if r.random() < .5:
                r.shuffle(segs)
            return segs
        per = [[] for _ in range(P)]
        st = r.random()
        for t in range(lo, hi):
            if r.random() < .7:
                k = r.randrange(P) if st < .6 else (t - lo) * P // max(1, hi - lo)
                per[k].append(t)
        if r.random() < .3:
            per[r.randrange(P)] = []
        return per

    def opts(self, op, ns):
        r = self.rng
        if op["api"] == "cc":
            dosz = 240 + 4 * ns
            if r.random() < .7:
                op["max"] = r.choice([2 * dosz, 2 * dosz + 1, 3 * dosz, 5 * dosz, 8 * dosz, 1 << 20])
            if r.random() < .15:
                op["coll"] = 0
            if self.fcomm:
                op["fcomm"] = 1
        return op

    def wtr(self, o, ns, what, lst, segs, rule=None, desc=False):
        r = self.rng
        rule = self.rule(True) if rule is None else rule
        op = {"op": "wtr", "o": o, "kind": "list" if lst else "contig", "what": what, "ns": ns, "rule": rule, "a": []}
        for s in segs:
            if lst:
                s = list(s)
                if desc:
                    r.shuffle(s)
            n = len(s) if lst else s[1]
            a = {"offs": list(s)} if lst else {"off": s[0], "n": n}
            if not n and not lst and r.random() < .3:
                a["off"] = 0
            if what != "prm":
                a["trc"] = [self.trace(ns) for _ in range(n)]
            if what != "trc":
                a["prm"] = [self.row(rule) for _ in range(n)]
            if r.random() < .25:
                a["skip"] = r.randrange(4)
            if n == 0 and r.random() < .5:
                a["null"] = 1
            op["a"].append(a)
        return op

    def writer(self, name, nwr=None, ns=None, declare=None):
        """a whole session of one writer"""
        r = self.rng
        old = self.files.get(name)
        if ns is None:
            ns = r.choice([0, 1, 2, 5, 9, 30])
            if old and r.random() < .7:
                ns = old[0]
            if self.ns is not None:
                ns = self.ns
        self.n += 1
        o = "w%d" % self.n
        api = r.choice(self.apis)
        ops = [self.opts({"op": "wopen", "o": o, "name": name, "api": api}, ns)]
        pre = []
        t = self.text()
        if r.random() < .8:
            pre.append({"op": "wtext", "o": o, "text": t, "key": fnv_key(t)})
        if r.random() < .3:
            t = self.text()
            pre.append({"op": "wtext", "o": o, "text": t, "key": fnv_key(t)})
        us = lambda: r.randrange(1, 32768) if not self.refuse or r.random() < .9 else \
            r.choice([0, 32767, -32767, -1, 32768, -32768, 40000, 65536, 65537, 1000000, -40000, r.randrange(32768, 10**9)])
        if not self.refuse or r.random() < .95:
            pre.append({"op": "winc", "o": o, "us": us()})
        if r.random() < .2:
            pre.append({"op": "winc", "o": o, "us": us()})
        nt = 0
        if r.random() < .7 if declare is None else declare:
            nt = r.randrange(0, self.maxnt + 1)
            pre.append({"op": "wnt", "o": o, "n": nt})
        r.shuffle(pre)
        texts = [p for p in pre if p["op"] == "wtext"]
        late = [p for p in pre if p["op"] in ("wtext", "winc") and r.random() < .2]
        pre = [p for p in pre if p not in late]
        nso = {"op": "wns", "o": o, "n": ns}
        if not (self.refuse and ns == 0 and r.random() < .2):
            pre.insert(r.randrange(len(pre) + 1), nso)
            if r.random() < .1 and self.ns is None:
                pre.insert(pre.index(nso), {"op": "wns", "o": o, "n": r.randrange(40)})
        if self.refuse and r.random() < .08:
            pre.insert(r.randrange(len(pre) + 1), {"op": "wns", "o": o, "n": r.choice([32768, 65535, 65536, 65537, 10**6, 2**31 - 1])})
        ops += pre
        for _ in range(r.randrange(0, 5) if nwr is None else nwr):
            top = r.choice([nt, nt, max(nt, 1), min(nt + 4, self.maxnt + 4)])
            lo = r.randrange(0, top + 1)
            hi = r.randrange(lo, top + 1)
            if r.random() < .4:
                lo, hi = 0, top
            lst = r.random() < .5
            segs = self.split_targets(lo, hi, lst)
            what = r.choice(["both", "both", "trc", "prm"])
            ops.append(self.wtr(o, ns, what, lst, segs))
            for s in segs:
                if lst and s:
                    nt = max(nt, max(s) + 1)
                if not lst and s[1]:
                    nt = max(nt, s[0] + s[1])
            if r.random() < .1:
                # declared again, larger or smaller
                nt = r.randrange(0, self.maxnt + 1)
                ops.append({"op": "wnt", "o": o, "n": nt})
        ops += late
        ops.append({"op": "wclose", "o": o})
        self.files[name] = (ns, nt)
        return ops

    def rtr(self, o, ns, nt, kind=None, what=None):
        r, P = self.rng, self.P
        kind = kind or r.choice(["contig", "list", "any"])
        what = what or r.choice(["both", "both", "trc", "prm"])
        rule = self.rule(False)
        op = {"op": "rtr", "o": o, "kind": kind, "what": what, "ns": ns, "rule": rule, "a": []}
        for p in range(P):
            if kind == "contig":
                off = r.randrange(0, nt + 1)
                n = r.randrange(0, nt - off + 1)
                k = r.random()
                if k < .2:
                    n += r.randrange(0, 5)
                elif k < .3:
                    off = nt + r.randrange(0, 4)
                    n = r.randrange(0, 4)
                elif k < .4:
                    off, n = p * nt // P, (p + 1) * nt // P - p * nt // P
                elif k < .5:
                    n = 0
                a = {"off": off, "n": n}
            elif kind == "list":
                a = {"offs": [t for t in range(nt) if r.random() < .5]}
                n = len(a["offs"])
            else:
                n = r.randrange(0, 2 * nt + 1) if nt else 0
                a = {"offs": [r.randrange(nt) for _ in range(n)]}
            if r.random() < .2 and kind != "contig":
                a["offs"] = []
                n = 0
            if r.random() < .25:
                a["skip"] = r.randrange(4)
            if n == 0 and r.random() < .5:
                a["null"] = 1
            op["a"].append(a)
        return op

    def reader(self, name, nrd=None):
        r = self.rng
        self.n += 1
        o = "r%d" % self.n
        ns, nt = self.files[name]
        ops = [self.opts({"op": "ropen", "o": o, "name": name, "api": r.choice(self.apis)}, ns)]
        for _ in range(r.randrange(0, 6) if nrd is None else nrd):
            ops.append(self.rtr(o, ns, nt))
        ops.append({"op": "rclose", "o": o})
        return ops

    def shape(self):
        """the size of things: mostly small, sometimes long traces, many traces, or a huge sparse file"""
        r = self.rng
        k = r.random()
        if k < .1:
            self.ns = r.choice([0, 1, 2, 5, 9, 30, 250])
            self.maxnt = 20 if self.ns < 100 else 6
            return True
        if k < .13:
            self.ns, self.maxnt = r.choice([(255, 10), (256, 10), (257, 8), (1023, 4), (1200, 4), (4096, 2), (16384, 1), (32767, 1)])
        elif k < .15:
            self.ns, self.maxnt = r.choice([(0, 300), (1, 300), (2, 130), (1, 260)])
        return False

    def start(self):
        self.files = {}
        self.n = 0


_sparse = None


def _probe():
    """can files here be that large?"""
    global _sparse
    with tempfile.TemporaryFile(dir="/tmp") as f:
        try:
            f.truncate(2 * 10**12)
            _sparse = os.fstat(f.fileno()).st_blocks < 1000
        except OSError:
            _sparse = False


def distant(rng, ops):
    """the same history in a file whose traces from some point on are millions of traces further away"""
    cuts = set(range(0, 30))
    # (traces of another length lie elsewhere)
    if len({op["ns"] for op in ops if op["op"] in ("wtr", "fput")} | {op["n"] for op in ops if op["op"] == "wns"}) > 1:
        return ops
    for op in ops:
        if op["op"] == "put":
            return ops
        if op["op"] in ("wtr", "rtr") and op["kind"] == "contig":
            for a in op["a"]:
                cuts -= set(range(a["off"] + 1, a["off"] + a["n"]))
        if op["op"] == "fput" and op.get("extra"):
            op["extra"] = 0
    K = rng.choice(sorted(cuts) + [0, 0, min(cuts, key=lambda c: abs(c - 5))])
    if _sparse is None:
        _probe()
    if not _sparse:
        return ops
    B = rng.choice([1000003, 9000000, 2**24, 2**31 - 1 - rng.randrange(30), 2**31 + 7, 3 * 10**9, 2**32 - rng.randrange(9)])
    for op in ops:
        if op["op"] in ("fput", "wnt", "wtr", "ropen", "rtr", "fcat"):
            op["far"] = [K, str(B)]
    return ops
