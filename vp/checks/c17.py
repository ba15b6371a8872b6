import math
from ..check import Check, Model
from ..setgen import SetGen, f2w


def hdr(il, xl, more=()):
    w = dict(more)
    for loc, v in ((189, il), (193, xl)):
        lo = (loc - 1) // 2
        for k, x in ((lo, v >> 16), (lo + 1, v)):
            x &= 0xffff
            x = x - 65536 if x >> 15 else x
            if x:
                w[k] = x
    return [[a, b] for a, b in sorted(w.items()) if b]


class C(Check):
    trace_module = "TrRadon"
    models = [Model("MCRadon", thorough={"PROCS": "{1, 2, 3, 4}", "MAXG": 6, "MAXN": 3})]
    tools = ("radon",)
    assumptions = ["the files of a set have one geometry, and the velocity model is a complete grid that covers the gathers",
                   "velocities are whole numbers for which rounding is not decided by the last digits of the cosine",
                   "only sorting comes before the conversion"]

    def model_file(self, rng, g, name):
        """a complete grid, crosslines fastest"""
        ilc, xlc = rng.choice([(1, 1), (1, 2), (2, 1), (1, rng.randrange(2, 6)), (rng.randrange(2, 6), 1),
                               (rng.randrange(2, 5), rng.randrange(2, 5)), (rng.randrange(2, 5), rng.randrange(2, 5))])
        big = rng.random() < .15
        il0, xl0 = (rng.randrange(-40000, 90000) if big else rng.randrange(-3, 9) for _ in range(2))
        ili, xli = (rng.choice([1, 1, 2, 3, 10, -1, -2]) for _ in range(2))
        lines = [(il0 + a * ili, xl0 + b * xli) for a in range(ilc) for b in range(xlc)]
        return lines

    def vel(self, rng, top, n, half, vbin):
        for _ in range(200):
            v = rng.choice([0, rng.randrange(0, vbin + 1), rng.randrange(0, top + 1), rng.randrange(-3, top + 1)])
            if all(abs(abs((v / math.cos(math.radians(j * half / 2))) % 1 - .5)) > .1 for j in range(n)):
                return v
        return 0

    def one(self, rng, P, k):
        g = SetGen(rng, P)
        lines = self.model_file(rng, g, "vm")
        n = rng.choice([1, 1, 2, 3, 5, 9])
        half = rng.choice([1, 2, 2, 3])
        ns = rng.choice([1, 2, 3, 8])
        inc = rng.choice([1000, 1500, 2000, 4000])
        vinc = rng.choice([inc, inc, 1500, 3000, 500, 7000])
        vns = rng.choice([1, 2, ns, ns + 2])
        vbin = rng.choice([1, 2, 3, 20])
        G = rng.choice([1, 2, P, P + 1, 2 * P, rng.randrange(1, 9)])
        seq, last = [], None
        for _ in range(G):
            x = rng.choice(lines)
            if x == last and rng.random() < .8:
                x = rng.choice(lines)
            last = x
            seq.append(x)
        sizes = [rng.choice([1, 1, 2, 3, 4, 6]) for _ in seq]
        top = min(9000, vbin * (max(sizes) + 1))
        vel = [[self.vel(rng, top, n, half, vbin) for _ in range(vns)] for _ in lines]
        ops = [{"op": "fput", "name": "vm", "ns": vns, "inc": vinc, "fmt": 5, "text": "VM", "key": "0:0", "extra": 0,
                "traces": [{"h": hdr(a, b), "t": [f2w(float(v)) for v in vel[q]]} for q, (a, b) in enumerate(lines)]}]
        tr = []
        for x, m in zip(seq, sizes):
            for q in range(m):
                tr.append({"h": hdr(x[0], x[1], [(18, rng.randrange(-9, 9))]),
                           "t": [f2w(float(1000 * len(tr) + z + 1)) for z in range(ns)]})
        sort = rng.random() < .35
        if sort:
            rng.shuffle(tr)
        nf = rng.choice([1, 1, 2, 3])
        cut = sorted(rng.randrange(len(tr) + 1) for _ in range(nf - 1))
        parts = [tr[a:b] for a, b in zip([0] + cut, cut + [len(tr)])]
        if sort and sum(len(p) // P for p in parts) < 3:
            return None
        names = []
        for j, p in enumerate(parts):
            names.append("in%d.segy" % j)
            ops.append({"op": "fput", "name": names[-1], "ns": ns, "inc": inc, "fmt": 5,
                        "text": "R", "key": "0:0", "extra": 0, "traces": p})
        if nf == 1 and not sort and rng.random() < .4:
            G = sum(1 for q in range(len(seq)) if q == 0 or seq[q] != seq[q - 1])
            for _ in range(rng.choice([1, 1, 2])):
                lst = int(rng.random() < .5)
                a = []
                for p in range(P):
                    off = rng.randrange(G + 1)
                    n_ = rng.choice([0, G - off, rng.randrange(G - off + 1)])
                    a.append({"offs": [rng.randrange(G) for _ in range(rng.randrange(5))] if rng.random() < .6 else
                              sorted(rng.sample(range(G), rng.randrange(G + 1)))} if lst else {"off": off, "n": n_})
                ops.append({"op": "rmodel", "vm": "vm", "from": names[0], "list": lst, "a": a})
        tool = rng.random() < .3 and not sort
        conv = {"vm": "vm", "vel": vel, "bin": vbin, "n": n, "half": 2 if tool else half}
        lim = g.memlim(ns)
        if tool:
            if half != 2:
                ok = all(abs(abs((v / math.cos(math.radians(j))) % 1 - .5)) > .1 for t in vel for v in t for j in range(n))
                if not ok:
                    return None
            ops.append(dict(conv, op="tool", t="radon", mk="out", dump="out", cd=1, names=names, want="x.segy",
                            args=["-i", "@in*", "-v", "@vm", "-o", "@out/x", "-b", str(vbin), "-a", str(n)],
                            env={"EXSEISDAT_VERIF_MEMLIM": str(lim)} if lim else {}))
            return ops

        def run(o, out, chain):
            if nf > 1 and rng.random() < .5:
                r = [{"op": "sopen", "o": o, "api": "cc", "names": [], "outfix": ""}]
                r += [{"op": "sadd", "o": o, "pattern": x, "names": [x]} for x in names]
            else:
                r = [{"op": "sopen", "o": o, "api": "out", "pattern": "in*", "names": names, "outfix": ""}]
            if sort:
                r.append({"op": "ssort", "o": o, "type": 41})
            r.append(dict(conv, op="sangle", o=o, dflt=int(rng.random() < .5)))
            for c in chain:
                r.append(dict(c, o=o))
            r += [{"op": "sout", "o": o, "name": out, "want": out + ".segy", "cd": 1, "memlim": lim},
                  {"op": "sclose", "o": o, "cd": 1}]
            return r
        ops += run("s", "x", [])
        if rng.random() < .5:
            chain = []
            for _ in range(rng.choice([1, 2])):
                g.n += 1
                chain.append({"op": "staper", "o": "t", "id": g.n, "f": rng.choice(["lin", "cos", "cos2"]),
                              "l": rng.randrange(1, min(8, ns + 1)), "r": rng.randrange(0, min(8, ns + 1))})
            ops.append({"op": "simg", "files": ["out/x.segy"], "chain": chain, "ids": [c["id"] for c in chain]})
            ops += run("t", "y", chain)
        return ops

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 8
        sc = []
        while len(sc) < 220 * q:
            P = [1, 2, 3, 4, 5][len(sc) % 5]
            ops = self.one(rng, P, len(sc))
            if ops is None:
                continue
            s = {"P": P, "ops": ops}
            if rng.random() < .2:
                s["delay"] = rng.randrange(1, 1 << 30)
            sc.append(s)
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
