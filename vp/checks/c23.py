import copy
from ..check import Check, Model
from ..mix import Pool
from .c04 import C as Faults

REPEAT = {"dread", "dwrite", "dsize", "rtr", "wtr", "wtext", "psort", "order", "minmax", "gath", "smm", "vphase"}


class C(Check):
    """scenarios of the other checks, with operations repeated, watched at the MPI boundary"""
    models = [Model("MCRes", thorough={"MAXACC": 12, "MAXFAIL": 14})]
    trace_module = "TrRes"
    watchdog = 25
    assumptions = ["resources are those of the MPI library: files, types, info objects, windows, requests, communicators, reductions",
                   "a failed close is not tried again"]

    def repeat(self, rng, ops):
        out = []
        for o in ops:
            out.append(o)
            if o["op"] in REPEAT and rng.random() < .35:
                for _ in range(rng.choice([1, 2, 3, 6])):
                    out.append(copy.deepcopy(o))
        return out

    def scenarios(self, rng, tier):
        n = 500 if tier == "quick" else 4000
        pool = Pool(rng)
        sc = []
        for k in range(n):
            P = [1, 2, 3, 4, 5, 2, 3][k % 7]
            s = copy.deepcopy(pool.draw(P))
            s["ops"] = self.repeat(rng, s["ops"])
            s.pop("spec", None)
            sc.append(s)
        f = Faults.__new__(Faults)
        fs = Faults.scenarios(f, rng, "quick")
        for s in fs if tier == "thorough" else rng.sample(fs, 200):
            s.pop("sid", None)
            s["from"] = "C04"
            sc.append(s)
        for i, s in enumerate(sc):
            s["sid"] = i
            s["ledger"] = 1
        return sc

    def execute(self, scens):
        k = self.cov.setdefault("histories_by_source", {})
        for s in scens:
            k[s["from"]] = k.get(s["from"], 0) + 1
        return super().execute(scens)

    def post(self, sc, trace, sdir):
        for e in trace["ev"]:
            for v in e.get("v", []):
                if isinstance(v, dict) and "la" in v:
                    for q, x in v["la"].items():
                        self.peak[q] = max(self.peak.get(q, 0), x)

    def __init__(self, tier, seed):
        self.peak = {}
        super().__init__(tier, seed)

    def finish(self):
        self.cov["most_held_at_once_after_an_operation"] = self.peak
        return super().finish()

    def project(self, sc, trace):
        ev = []
        for e in trace["ev"]:
            if e["op"] in ("END", "ABORT"):
                ev.append(e)
            else:
                ev.append({"op": e["op"], "o": e.get("o", ""), "sig": "/".join(str(e.get(q, "")) for q in ("op", "kind", "what", "api")),
                           "lb": [v["lb"] for v in e["v"]], "la": [v["la"] for v in e["v"]],
                           "lerr": [v["lerr"] for v in e["v"]]})
        return {"sid": trace["sid"], "P": trace["P"], "ev": ev}

    def nontrivial(self, sc):
        return sc["P"] > 1
