from ..check import Check
from ..distgen import DistGen, TYPES, NEED, LTN, GTN


class C(Check):
    trace_module = "TrDist"
    assumptions = ["coordinates are multiples of one half of moderate size, so that the computed offset is exact"]

    def scenarios(self, rng, tier):
        q = 3 if tier == "quick" else 10
        sc = []
        for t in TYPES:
            for k in range(8 * q):
                g = DistGen(rng, 1)
                if t in (36, 38, 40, 42) and k % 3 == 0:
                    g.far = rng.randrange(4200, 7000)
                elif k % 3 == 1:
                    g.widen(True, t not in (36, 38, 40, 42))
                ops = []
                for _ in range(2):
                    rule = NEED + [LTN]
                    rng.shuffle(rule)
                    n = rng.randrange(2, 11)
                    ln = list(range(n))
                    rng.shuffle(ln)
                    rows = [[ln[i] if m == LTN else g.value(m) for m in rule] for i in range(n)]
                    # neighbours in the order: equal but for one key
                    for i in range(1, n):
                        if rng.random() < .6:
                            rows[i] = list(rows[i - 1])
                            rows[i][rule.index(LTN)] = ln[i]
                            if rng.random() < .7:
                                m = rng.choice(NEED if not g.far else [21, 23])
                                rows[i][rule.index(m)] = g.value(m) if not g.far else rows[i][rule.index(m)] + rng.randrange(3) * 10000
                    ops.append({"op": "cmp", "type": t, "rule": rule, "rows": rows})
                sc.append({"P": 1, "ops": ops})
        for k in range(60 * q):
            P = rng.choice([1, 2, 3, 4])
            g = DistGen(rng, P)
            t = rng.choice(TYPES)
            n = rng.randrange(0, 20)
            hd = [g.rawhdr() for _ in range(n)]
            if rng.random() < .7:
                from ..orders import filekey
                hd.sort(key=lambda h: filekey(t, h))
                if n > 1 and rng.random() < .5:
                    j = rng.randrange(n - 1)
                    hd[j], hd[j + 1] = hd[j + 1], hd[j]
            ops = [g.fput("a", hd), g.ropen("a")]
            for _ in range(3):
                a = []
                for p in range(P):
                    if rng.random() < .6:
                        a.append({"off": p * n // P, "n": (p + 1) * n // P - p * n // P})
                    else:
                        o = rng.randrange(0, n + 1)
                        a.append({"off": o, "n": rng.randrange(0, n - o + 1)})
                ops.append({"op": "order", "o": "r", "type": t if rng.random() < .8 else rng.choice(TYPES), "a": a})
            ops.append({"op": "rclose", "o": "r"})
            sc.append({"P": P, "ops": ops})
        return sc
