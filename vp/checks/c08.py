from fractions import Fraction
from ..check import Check, Model
from ..segygen import FLOATS, SHORTS, LONGS, ALL, ELEV, COORD


def dig(n, v):
    """v in units of 1e-8"""
    d = []
    for _ in range(7):
        d.append(v % 10000)
        v //= 10000
    assert v == 0
    return {"n": n, "d": d}


class C(Check):
    models = [Model("MCScale", thorough={"LIM": 25})]
    trace_module = "TrHdr"
    assumptions = ["magnitudes up to 2e13 (what the coarsest scale can hold)",
                   "values are the double nearest to the decimal number given"]

    def fval(self, rng, kind):
        """in units of 1e-8"""
        U = 10**8
        neg = rng.randrange(2)
        if kind == "dec":
            k = rng.randrange(0, 5)
            top = rng.choice([10, 1000, 214748, 2147483, 2147483647])
            v = rng.randrange(0, min(top * 10**k, 2**31)) * 10**(8 - k)
        elif kind == "edge":
            k = rng.randrange(0, 5)
            v = (2**31 - 1 - rng.choice([0, 0, 1, 2, 48, 100])) * 10**(8 - k)
        elif kind == "big":
            k = rng.randrange(1, 5)
            v = rng.randrange(2**31, 2**31 * 10**k - 10**k) * U
        elif kind == "bigexact":
            k = rng.randrange(1, 5)
            v = rng.randrange(2**28, 2**31) * 10**k * U
        elif kind == "mixed":
            v = rng.randrange(0, 2**31) * U + rng.randrange(0, 10000) * 10000
        elif kind == "fine":
            v = rng.randrange(0, 10**rng.randrange(1, 15))
            if v % 10000 in (5000,) or v % 1000 == 0:
                v += 1
        elif kind == "int":
            v = rng.randrange(0, 2**31) * U
        else:
            v = 0
        return dig(neg if v else 0, v)

    def scenarios(self, rng, tier):
        sc = []
        for k in range(800 if tier == "quick" else 4000):
            P = rng.choice([1, 1, 2, 3])
            m = rng.random()
            if m < .4:
                rule = rng.sample(COORD, rng.randrange(1, 7))
            elif m < .6:
                rule = rng.sample(ELEV, rng.randrange(1, 6))
            elif m < .7:
                rule = [11]
            else:
                rule = rng.sample(ALL, rng.randrange(1, len(ALL) + 1))
            rows, offs = [], []
            nt = 0
            a = []
            for p in range(P):
                n = rng.randrange(0, 4) if P > 1 else rng.randrange(1, 5)
                rr = []
                for _ in range(n):
                    kinds = rng.choice([["dec"], ["dec", "zero"], ["dec", "edge"], ["edge"], ["big"], ["big", "dec"], ["bigexact"],
                                        ["bigexact", "zero"], ["mixed"], ["mixed", "dec"], ["fine"], ["fine", "big"], ["int"],
                                        ["int", "dec"], ["dec", "edge", "big", "mixed", "fine", "zero", "int"]])
                    row = []
                    for q in rule:
                        if q in FLOATS:
                            row.append(self.fval(rng, rng.choice(kinds)))
                        elif q in SHORTS:
                            row.append(rng.choice([0, 1, -1, 32767, -32768, 255, 256, rng.randrange(-32768, 32768)]))
                        else:
                            row.append(rng.choice([0, 1, -1, 2**31 - 1, -2**31 + 1, 255, 65536, rng.randrange(-2**31 + 1, 2**31)]))
                    rr.append(row)
                a.append({"off": nt, "rows": rr})
                nt += n
            if not nt:
                continue
            sc.append({"P": P, "ops": [{"op": "hdrio", "name": "f", "rule": rule, "ns": rng.choice([0, 1, 2]), "nt": nt, "a": a}]})
        return sc
