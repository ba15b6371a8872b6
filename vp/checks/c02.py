from ..check import Check, Model


def disjoint_blocks(rng, P, size, bsz, maxper):
    """per process an ascending list of block offsets, none overlapping"""
    slots, o = [], rng.randrange(0, 4)
    while o + bsz <= size:
        slots.append(o)
        o += bsz + rng.choice([0, 0, 0, 1, 2, 5, bsz])
    per = [[] for _ in range(P)]
    style = rng.random()
    for i, s in enumerate(slots):
        if rng.random() < .75:
            r = rng.randrange(P) if style < .6 else min(P - 1, i * P // max(1, len(slots)))
            if len(per[r]) < maxper:
                per[r].append(s)
    if rng.random() < .4:
        per[rng.randrange(P)] = []
    return per


class DataGen:
    """random histories of the byte-level interface"""

    def __init__(self, rng, P, nops=8, size=None, maxsz=None, coll=None):
        self.rng, self.P, self.nops = rng, P, nops
        self.size = size if size is not None else rng.choice([0, 1, 7, 40, 120, 300])
        self.limit = maxsz
        self.coll = coll

    def data(self, n):
        return [self.rng.randrange(256) for _ in range(n)]

    def contig(self, write, size):
        rng, P = self.rng, self.P
        a = []
        cuts = sorted(rng.randrange(size + 1) for _ in range(2 * P))
        segs = [(cuts[2 * k], cuts[2 * k + 1] - cuts[2 * k]) for k in range(P)]
        if rng.random() < .4:
            b = [0] + sorted(rng.randrange(size + 1) for _ in range(P - 1)) + [size]
            segs = [(b[k], b[k + 1] - b[k]) for k in range(P)]
        rng.shuffle(segs)
        for k in range(P):
            off, n = segs[k]
            if not write and rng.random() < .4:
                off = rng.randrange(size + 1)
                n = rng.randrange(size - off + 1)
            if rng.random() < .2:
                n = 0
            d = {"off": off, "n": n}
            if write:
                d["data"] = self.data(n)
            elif rng.random() < .5 and n == 0:
                d["null"] = 1
            a.append(d)
        return a

    def stride(self, write, size, maxosz):
        rng, P = self.rng, self.P
        a = []
        osz = rng.randrange(1, max(2, min(maxosz, 40) + 1))
        bsz = rng.randrange(1, osz + 1)
        per = [None] * P
        if write:
            # interleaved or one after the other: disjoint by construction
            if rng.random() < .5 and P * bsz <= osz:
                for r in range(P):
                    nb = max(0, (size - r * bsz - bsz) // osz + 1) if size >= r * bsz + bsz else 0
                    per[r] = (r * bsz, rng.randrange(nb + 1))
            else:
                tot = size // osz
                cut = sorted(rng.randrange(tot + 1) for _ in range(P - 1)) + [tot]
                p = 0
                for r in range(P):
                    per[r] = (p * osz, cut[r] - p)
                    p = cut[r]
                rng.shuffle(per)
        else:
            for r in range(P):
                off = rng.randrange(size + 1)
                nb = (size - off - bsz) // osz + 1 if size - off >= bsz else 0
                per[r] = (off, rng.randrange(nb + 1) if rng.random() < .8 else nb)
        same = rng.random() < .8
        for r in range(P):
            off, nb = per[r]
            b, o = bsz, osz
            if not write and not same and rng.random() < .5 and nb:
                # a process with its own geometry, inside the same range
                o = max(1, osz // 2)
                b = rng.randrange(1, min(bsz, o) + 1)
                nb = rng.randrange(0, ((nb - 1) * osz + bsz - b) // o + 2)
            d = {"off": off, "bsz": b, "osz": o, "nb": nb}
            if write:
                d["data"] = self.data(b * nb)
            a.append(d)
        return a

    def lst(self, write, size, maxb):
        rng, P = self.rng, self.P
        bsz = rng.randrange(1, max(2, min(maxb, 24) + 1))
        per = disjoint_blocks(rng, P, size, bsz, 20)
        a = []
        for r in range(P):
            offs = per[r]
            b = bsz
            if not write and rng.random() < .4 and size > bsz:
                offs = disjoint_blocks(rng, 1, size, bsz, 12)[0]  # may overlap other processes' reads
            if not write and rng.random() < .15:
                b = max(1, bsz // 2)
            d = {"bsz": b, "offs": offs}
            if write:
                d["data"] = self.data(b * len(offs))
            a.append(d)
        return a

    def scenario(self):
        rng, P = self.rng, self.P
        size = self.size
        init = self.data(size)
        big = 1 << 20
        limit = self.limit if self.limit is not None else rng.choice([1, 2, 3, 7, 16, 30, 64, 100, 300, big])
        o = {"op": "dopen", "o": "d", "name": "f", "mode": "rw", "max": limit}
        if self.coll is not None:
            o["coll"] = self.coll
        elif rng.random() < .25:
            o["coll"] = 0
        ops = [{"op": "put", "name": "f", "bytes": init}, o]
        for _ in range(self.nops):
            k = rng.random()
            if k < .08:
                ops.append({"op": "dsize", "o": "d"})
                continue
            if k < .16:
                size = rng.choice([0, size // 2, size, size + 1, size + 37, rng.randrange(300)])
                ops.append({"op": "dsetsize", "o": "d", "size": size})
                continue
            write = rng.random() < .5
            space = size if not write else min(700, size + rng.choice([0, 0, 1, 20, 60]))
            kind = rng.choice(["contig", "stride", "list"])
            if kind == "contig":
                a = self.contig(write, space)
                end = max([x["off"] + x["n"] for x in a if x["n"]] or [0])
            elif kind == "stride":
                a = self.stride(write, space, limit)
                end = max([x["off"] + (x["nb"] - 1) * x["osz"] + x["bsz"] for x in a if x["nb"]] or [0])
            else:
                if limit < 2:
                    continue
                a = self.lst(write, space, limit // 2)
                end = max([x["offs"][-1] + x["bsz"] for x in a if x["offs"]] or [0])
            if write:
                size = max(size, end)
            ops.append({"op": "dwrite" if write else "dread", "o": "d", "kind": kind, "a": a})
        ops.append({"op": "dsize", "o": "d"})
        ops.append({"op": "dclose", "o": "d"})
        ops.append({"op": "cat", "name": "f"})
        return {"P": P, "ops": ops}


def far(rng, P):
    """the same operations in a file of many gigabytes: pages of a few bytes far from one another"""
    PG = rng.choice([16, 24, 40])
    strided = rng.random() < .4
    npg = rng.randrange(2, 14 if strided else 8)
    # one strided call reaches at most the limit (nearly 2^29 bytes)
    mb = rng.choice([100, 255, 300, 500, 510] if strided else [700, 2047, 2048, 3000, 4096, 5000])
    f = [PG, mb, 0 if mb in (2048, 4096) else rng.choice([0, 1, 4095, 1048575])]
    size = rng.choice([0, PG, npg * PG, rng.randrange(1, npg * PG + 1)])
    data = lambda n: [rng.randrange(256) for _ in range(n)]
    o = {"op": "dopen", "o": "d", "name": "f", "mode": "rw"}
    if not strided and rng.random() < .5:
        o["max"] = rng.choice([2 * PG, 3 * PG + 1, 64, 200, 1000])
        o["max"] = max(o["max"], 2 * PG)
    if rng.random() < .25:
        o["coll"] = 0
    ops = [{"op": "put", "name": "f", "bytes": data(size)}, o]
    for _ in range(rng.randrange(4, 9)):
        k = rng.random()
        if k < .15:
            size = rng.choice([0, size // 2, size, rng.randrange(npg * PG + 1)])
            ops += [{"op": "dsetsize", "o": "d", "size": size}, {"op": "dsize", "o": "d"}]
            continue
        write = rng.random() < .6
        kind = rng.choice(["contig", "list", "stride"] if strided else ["contig", "list", "list"])
        a, end = [], 0
        if kind == "contig":
            pages = [rng.randrange(npg) for _ in range(P)] if not write else \
                [(k + rng.randrange(100) * P) % max(npg, P) for k in range(P)]
            for r in range(P):
                o = rng.randrange(PG)
                n = rng.choice([0, rng.randrange(PG - o + 1), PG - o])
                off = pages[r] * PG + o
                if not write and off + n > size:
                    n = max(0, min(n, size - off))
                    off = off if n else 0
                a.append({"off": off, "n": n})
                end = max(end, off + n if n else 0)
            if write and len(set(pages)) < P:
                continue
        elif kind == "list":
            bsz = rng.randrange(1, PG // 2)
            per = [[] for _ in range(P)]
            for g in range(npg):
                x = g * PG + rng.randrange(4)
                while x + bsz <= (g + 1) * PG:
                    if (write or x + bsz <= size) and rng.random() < .6:
                        per[rng.randrange(P)].append(x)
                    x += bsz + rng.choice([0, 0, 1, 5])
            if rng.random() < .3:
                per[rng.randrange(P)] = []
            for r in range(P):
                a.append({"bsz": bsz, "offs": per[r]})
                end = max([end] + [x + bsz for x in per[r]])
        else:
            bsz = rng.randrange(1, max(2, PG // P))
            for r in range(P):
                p0 = rng.randrange(npg)
                nb = rng.randrange(0, npg - p0 + 1)
                off = p0 * PG + r * bsz
                if r * bsz + bsz > PG:
                    nb = 0
                while not write and nb and off + (nb - 1) * PG + bsz > size:
                    nb -= 1
                if not nb:
                    off = 0
                a.append({"off": off, "bsz": bsz, "osz": PG, "nb": nb})
                end = max(end, off + (nb - 1) * PG + bsz if nb else 0)
        if write:
            for x in a:
                x["data"] = data(x["n"] if kind == "contig" else x["bsz"] * (x["nb"] if kind == "stride" else len(x["offs"])))
            size = max(size, end)
        ops.append({"op": "dwrite" if write else "dread", "o": "d", "kind": kind, "a": a})
    ops += [{"op": "dsize", "o": "d"}, {"op": "dclose", "o": "d"}, {"op": "cat", "name": "f"}]
    for op in ops:
        if op["op"] not in ("dopen", "dclose"):
            op["far"] = f
    return {"P": P, "ops": ops}


class C(Check):
    models = [Model("MCChunk")]
    trace_module = "TrData"
    assumptions = ["concurrent writes of different processes do not overlap (MPI leaves overlaps undefined)",
                   "list offsets ascend (an MPI file view requires it)",
                   "the MPI implementation performs the calls it is given"]

    def scenarios(self, rng, tier):
        n = 400 if tier == "quick" else 1600
        sc = []
        for k in range(n):
            P = [1, 2, 3, 4, 2, 5][k % 6]
            sc.append(DataGen(rng, P, nops=rng.randrange(5, 12)).scenario())
        for k in range(60 if tier == "quick" else 200):
            sc.append(far(rng, [1, 2, 3, 4][k % 4]))
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
