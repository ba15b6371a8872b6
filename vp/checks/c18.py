from ..check import Check


class C(Check):
    trace_module = "TrSignal"
    assumptions = ["windows shorter than the trace", "samples and gains small integers, so that the comparison is exact or to 1e-2 of the amplitude"]

    def sig(self, rng, n):
        k = rng.random()
        s = [rng.randrange(-9, 10) for _ in range(n)]
        if k < .25:
            a = rng.randrange(n + 1)
            for j in range(a):
                s[j] = 0
        elif k < .4:
            a = rng.randrange(n)
            for j in range(a, min(n, a + rng.randrange(n + 1))):
                s[j] = 0
        elif k < .45:
            s = [0] * n
        elif k < .5:
            s = [-abs(x) for x in s]
        return s

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 10
        sc = []
        # every length and window, with the centre, the window and the length handed to the gain function observed
        for n in range(2, 14):
            for win in range(1, min(n, 12)):
                ops = [{"op": "agc", "f": "user", "sig": self.sig(rng, n), "win": win, "target": rng.randrange(1, 6),
                        "api": a} for a in ("cc", "c")]
                for f in ("rms", "tri", "mean"):
                    for _ in range(q):
                        ops.append({"op": "agc", "f": f, "sig": self.sig(rng, n), "win": win, "target": rng.randrange(1, 6),
                                    "api": rng.choice(["cc", "c"])})
                sc.append({"P": 1, "piol": 0, "ops": ops})
        for _ in range(60 * q):
            n = rng.randrange(14, 40)
            sc.append({"P": 1, "piol": 0, "ops": [
                {"op": "agc", "f": rng.choice(["user", "rms", "tri", "mean"]), "sig": self.sig(rng, n),
                 "win": rng.randrange(1, 10), "target": rng.randrange(1, 6), "api": rng.choice(["cc", "c"])}]})
        for _ in range(120 * q):
            n = rng.randrange(2, 14)
            sc.append({"P": 1, "piol": 0, "tags": ["median-even"], "ops": [
                {"op": "agc", "f": "median", "sig": self.sig(rng, n), "win": rng.randrange(1, min(n, 10)),
                 "target": rng.randrange(1, 6), "api": rng.choice(["cc", "c"])}]})
        return sc
