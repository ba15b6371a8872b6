from ..check import Check, Model
from ..distgen import DistGen


class C(Check):
    models = [Model("MCGather", thorough={"NT": 7, "PROCS": 4})]
    trace_module = "TrDist"

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 10
        sc = []
        for k in range(170 * q):
            P = [1, 2, 3, 4, 5, 3, 6][k % 7]
            g = DistGen(rng, P)
            n = rng.choice([0, 1, 2, 3, P, P + 1, 2 * P, rng.randrange(0, 30), rng.randrange(0, 30)])
            runs, hd = rng.random(), []
            il = xl = 1
            for t in range(n):
                if rng.random() < runs:
                    # two lines that alternate, or a fresh one
                    if rng.random() < .5:
                        il, xl = rng.choice([(1, 1), (1, 2), (2, 1)])
                    else:
                        il = rng.choice([rng.randrange(-3, 4), rng.randrange(-3, 4), 65537, 2147483647, -2147483648])
                        xl = rng.choice([rng.randrange(-3, 4), 1, 65537, 2147483647, -2147483648])
                hd.append(g.rawhdr(il, xl))
            ops = [g.fput("a", hd), g.ropen("a")]
            for _ in range(rng.randrange(1, 4)):
                ops.append({"op": "gath", "o": "r"})
            ops.append({"op": "rclose", "o": "r"})
            sc.append({"P": P, "ops": ops, "delay": rng.randrange(0, 1 << 30)})
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
