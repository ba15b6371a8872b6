from ..check import Check, Model
from ..segygen import SegyGen, distant


class C(Check):
    models = [Model("MCReadAny", thorough={"MAXN": 5})]
    trace_module = "TrSegy"
    assumptions = ["concurrent writes of different processes do not address the same trace",
                   "the MPI implementation performs the calls it is given"]

    def scenarios(self, rng, tier):
        n = 450 if tier == "quick" else 1500
        sc = []
        for k in range(n):
            g = SegyGen(rng, [1, 2, 3, 4][k % 4], apis=("cc", "cc", "direct", "c"))
            g.start()
            far = g.shape()
            ops = []
            ops.append(g.put("a"))
            for _ in range(rng.randrange(1, 3)):
                ops += g.reader("a", nrd=rng.randrange(1, 6))
            if rng.random() < .3:
                ops += g.writer("b", nwr=3)
                ops += g.reader("b", nrd=3)
            sc.append({"P": g.P, "ops": distant(rng, ops) if far else ops})
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
