from ..check import Check
from ..distgen import DistGen, LTN, GTN
from ..setgen import SetGen


class C(Check):
    trace_module = "TrDist"
    assumptions = ["headers of sets are valid: scale words are powers of ten", "values are finite and exact in 1/10000 below 200000"]

    def scenarios(self, rng, tier):
        q = 3 if tier == "quick" else 10
        sc = []
        for k in range(150 * q):
            P = [1, 2, 3, 4, 5][k % 5]
            ops = []
            for _ in range(3):
                g = DistGen(rng, P)
                sz = g.sizes(0, 6)
                if rng.random() < .5:
                    for r in range(P):
                        if rng.random() < .5:
                            sz[r] = 0
                if sum(sz) == 0 and rng.random() < .8:
                    sz[rng.randrange(P)] = 1
                m1, m2 = rng.sample([20, 21, 22, 23, 24, 25, 15, 16, 14, 26, 27, 5], 2)
                if rng.random() < .1:
                    m2 = m1
                rule = [m1] + ([m2] if m2 != m1 else []) + rng.sample([3, 4, 6, 7, 8, 9, 10], rng.randrange(3)) + [LTN]
                rng.shuffle(rule)
                sign = rng.random()
                if rng.random() < .3:           # beyond 16 bits; the largest that are exact
                    g.wide = rng.sample([65539, 32768, -32769, 70001, -70001, 3, 3 - 65536, 150000, -150000, 0], rng.choice([2, 3, 10]))
                    b = rng.randrange(-1900000000, 1900000000)
                    g.widec = [b, b + 1, b - 1, -b, b, 0]
                a, off = [], rng.choice([0, 0, 5])
                for r in range(P):
                    rows = []
                    for _ in range(sz[r]):
                        row = [rng.randrange(-3, 4) if m in (7, 8, 9) else g.value(m) for m in rule]
                        if sign < .3:
                            row = [-abs(x) - (10000 if sign < .2 else 0) for x in row]
                        elif sign < .45:
                            row = [abs(x) + 10000 for x in row]
                        elif sign < .55:
                            row = [-20000 if m >= 15 and m not in (26, 27) else -2 for m in rule]
                        row[rule.index(LTN)] = 0
                        rows.append(row)
                    a.append({"off": off, "rows": rows})
                    off += sz[r]
                ops.append({"op": "minmax", "rule": rule, "m1": m1, "m2": m2, "api": rng.choice(["cc", "c", "xy"]), "a": a})
            sc.append({"P": P, "ops": ops})
        for k in range(60 * q):
            P = [1, 2, 3, 4, 5][k % 5]
            g = SetGen(rng, P)
            g.cmp = False
            sign, d = rng.random(), g.dg
            if sign < .6:
                f = (lambda x: -abs(x)) if sign < .4 else abs
                coord, integer, one = d.coord, d.integer, 1 if sign < .4 else 0
                d.coord = lambda m=0: f(coord(m)) - 20000 * one
                d.integer = lambda: f(integer()) - one
            ops, names = [], []
            for j in range(rng.choice([1, 2, 2, 3])):
                names.append("in%d.segy" % j)
                ops.append(g.put(names[-1], rng.choice([0, 2]), rng.choice([1000, 2000]),
                                 rng.choice([0, 0, 1, 2, P, rng.randrange(0, 9)]), keys=True))
            api = rng.choice(["cc", "c"])
            ops.append({"op": "sopen", "o": "s", "api": api, "pattern": "in*", "names": names if api == "c" else [], "outfix": ""})
            if api == "cc":
                ops += [{"op": "sadd", "o": "s", "pattern": x, "names": [x]} for x in names]
            for _ in range(rng.choice([1, 2, 3])):
                m = rng.sample([20, 21, 22, 23, 14, 26, 27], 2)
                ops.append({"op": "smm", "o": "s", "m1": m[0], "m2": m[1] if rng.random() < .9 else m[0]})
            ops.append({"op": "sclose", "o": "s"})
            sc.append({"P": P, "ops": ops, "spec": "TrFlow"})
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
