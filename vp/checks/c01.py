from ..check import Check, Model


def limbs(x):
    return [x & 0xffff, x >> 16 & 0xffff, x >> 32 & 0xffff, x >> 48 & 0xffff]


class C(Check):
    models = [Model("MCDecomp", thorough={"MaxN": 120, "MaxP": 24})]
    trace_module = "TrDecomp"
    assumptions = ["N + P stays below 2^64"]

    def scenarios(self, rng, tier):
        deep = tier == "thorough"
        sc = []
        maxn, maxp = (130, 20) if deep else (40, 12)
        for P in range(1, maxp + 1):
            ops = []
            for N in range(0, maxn + 1):
                ops.append({"op": "decomp", "N": limbs(N), "P": P})
                if N:
                    ops.append({"op": "locate", "N": limbs(N), "P": P, "idx": [limbs(i) for i in range(N)]})
            sc.append({"ops": ops, "piol": 0})

        def big():
            b = rng.choice([8, 16, 17, 31, 32, 33, 40, 48, 53, 62, 63, 64])
            k = rng.random()
            x = rng.getrandbits(b)
            if k < .25:
                x = (1 << b) - 1 - rng.randrange(4)
            elif k < .4:
                x = (1 << (b - 1)) + rng.randrange(4)
            return min(max(x, 1), 2**64 - 2**33)
        for _ in range(60 if deep else 20):
            ops = []
            for _ in range(8):
                N, P = big(), rng.choice([1, 2, 3, 5, 7, 8, 13, 16, 31, 40, 100])
                ops.append({"op": "decomp", "N": limbs(N), "P": P})
                idx = [0, N - 1] + [rng.randrange(N) for _ in range(6)]
                q, m = divmod(N, P)
                for r in (0, 1, m - 1, m, m + 1, P - 1):
                    if 0 <= r < P:
                        s = q * r + min(r, m)
                        idx += [i for i in (s - 1, s, s + 1) if 0 <= i < N]
                ops.append({"op": "locate", "N": limbs(N), "P": P, "idx": [limbs(i) for i in idx]})
                PP = max(2, rng.getrandbits(rng.choice([4, 10, 16, 20, 31, 32, 40])))
                rk = [0, PP - 2] + [rng.randrange(PP - 1) for _ in range(6)]
                m = N % PP
                rk += [r for r in (m - 2, m - 1, m) if 0 <= r < PP - 1]
                ops.append({"op": "adjacent", "N": limbs(N), "PP": limbs(PP), "ranks": [limbs(r) for r in rk]})
            sc.append({"ops": ops, "piol": 0})
        return sc
