from ..check import Check, Model
from ..segygen import SegyGen, distant


class C(Check):
    models = [Model("MCWriter", thorough={"NP": 3, "STEPS": 4, "MAXT": 4})]
    trace_module = "TrSegy"
    assumptions = ["concurrent writes of different processes do not address the same trace",
                   "the MPI implementation performs the calls it is given"]

    def scenarios(self, rng, tier):
        n = 450 if tier == "quick" else 1500
        sc = []
        for k in range(n):
            g = SegyGen(rng, [1, 2, 3, 4][k % 4], apis=("cc", "cc", "direct", "c"))
            g.start()
            far = g.shape()
            ops = []
            if rng.random() < .5:
                ops.append(g.put("a"))
            for _ in range(rng.randrange(1, 4)):
                ops += g.writer("a", nwr=rng.randrange(1, 7))
                ops.append({"op": "fcat", "name": "a"})
            sc.append({"P": g.P, "ops": distant(rng, ops) if far else ops})
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
