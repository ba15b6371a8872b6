import copy
from ..check import Check, Model
from ..mix import Pool
from ..setgen import SetGen
from .c04 import C as Faults


class C(Check):
    """scenarios of the other checks with uneven work, watched at the MPI boundary"""
    models = [Model("MCChunk", thorough={"P": 3}), Model("MCFault")]
    trace_module = "TrMatch"
    watchdog = 12
    assumptions = ["a process that is left waiting is noticed by comparing every collective step before it is taken, and by a time limit"]

    def scenarios(self, rng, tier):
        n = 600 if tier == "quick" else 4500
        pool = Pool(rng)
        sc = []
        for k in range(n):
            P = [2, 3, 4, 5, 2, 3][k % 6]
            s = copy.deepcopy(pool.draw(P))
            s.pop("spec", None)
            if rng.random() < .6:
                # one process, or all but one, with nothing to do
                lazy = {rng.randrange(P)} if rng.random() < .6 else set(range(P)) - {rng.randrange(P)}
                for o in s["ops"]:
                    if o["op"] in ("dread", "dwrite", "rtr", "wtr") and rng.random() < .6:
                        for r in lazy:
                            self.empty(o, r)
            if rng.random() < .6:
                s["delay"] = rng.randrange(1, 1 << 30)
            s["ops"] = [o for o in s["ops"] if o["op"] != "fcat"]
            sc.append(s)
        fs = [s for s in Faults.scenarios(Faults.__new__(Faults), rng, "quick") if s["P"] > 1]
        for s in fs if tier == "thorough" else rng.sample(fs, 120):
            s.pop("sid", None)
            s["from"] = "C04"
            sc.append(s)
        sc += self.edges(rng)
        for i, s in enumerate(sc):
            s["sid"] = i
            s["trace"] = 1
        return sc

    def edges(self, rng):
        """sorted sets at the numbers of traces where the processes begin to differ"""
        out = []
        for P in (2, 3, 4, 5):
            for nt in [0, 1, P - 1, P + 1] + list(range(2 * P - 1, 3 * P + 2)):
                g = SetGen(rng, P)
                ops = [g.put("in0.segy", 2, 1000, nt, keys=True, finite=True),
                       {"op": "sopen", "o": "s", "api": "c", "pattern": "in*", "names": ["in0.segy"], "outfix": ""},
                       g.sort("s", "c", True)]
                if rng.random() < .4:
                    ops.append(g.sort("s", "c", True))
                ops += [{"op": "sout", "o": "s", "name": "x", "memlim": g.memlim(2)},
                        {"op": "sclose", "o": "s", "memlim": g.memlim(2)}]
                out.append({"P": P, "ops": ops, "from": "C16"})
        return out

    def empty(self, o, r):
        a = o["a"][r]
        for q in ("n", "nb"):
            if q in a:
                a[q] = 0
        for q in ("offs", "data", "trc", "prm"):
            if q in a:
                a[q] = []

    def execute(self, scens):
        k = self.cov.setdefault("histories_by_source", {})
        for s in scens:
            k[s["from"]] = k.get(s["from"], 0) + 1
        return super().execute(scens)

    def project(self, sc, trace):
        ev = []
        for e in trace["ev"]:
            if e["op"] == "ABORT":
                ev.append(e)
            elif e["op"] == "END":
                ev.append({"op": "END", "left": e["left"], "calls": [self.calls(c) for c in trace["endcalls"]]})
            else:
                ev.append({"op": e["op"], "calls": [self.calls(v["calls"]) for v in e["v"]]})
        return {"sid": trace["sid"], "P": trace["P"], "ev": ev}

    def calls(self, cs):
        for c in cs:
            self.ncalls[c["c"]] = self.ncalls.get(c["c"], 0) + 1
        return [dict(c, x=c.get("x", -1)) for c in cs]

    def __init__(self, tier, seed):
        self.ncalls = {}
        super().__init__(tier, seed)

    def finish(self):
        self.cov["steps_by_kind"] = self.ncalls
        return super().finish()

    def nontrivial(self, sc):
        return sc["P"] > 1
