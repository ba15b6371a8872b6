from ..check import Check


class C(Check):
    trace_module = "TrSignal"
    assumptions = ["samples and weights small integers, so that the comparison is exact"]

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 10
        sc = []
        for n in range(1, 13 if tier == "quick" else 18):
            ops = []
            for l in range(n + 1):
                for r in range(n + 1):
                    z = rng.choice([0, 0, rng.randrange(n + 1)])
                    for _ in range(q):
                        s = [0] * z + [rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(n - z)]
                        for j in range(z + 1, n):
                            if rng.random() < .2:
                                s[j] = 0
                        e = rng.random() < .3
                        ops.append({"op": "taper", "sig": s, "l": l, "r": r, "around": rng.randrange(2), "api": rng.choice(["cc", "c"])})
                        if e:
                            ops[-1]["ex"] = [rng.choice([0, -20, -60, -140, 90]) for _ in s]
            for j in range(0, len(ops), 30):
                sc.append({"P": 1, "piol": 0, "ops": ops[j:j + 30]})
        for R in range(1, 25):
            for f in ("lin", "cos", "cos2"):
                for a in ("cc", "c"):
                    sc.append({"P": 1, "piol": 0, "ops": [{"op": "ramp", "f": f, "ramp": R, "api": a}]})
        return sc
