from ..check import Check, Model
from ..segygen import SegyGen
from ..setgen import SetGen
from .c02 import DataGen

CALLS = {"dopen": ["File_open", "File_open", "File_set_view"], "dclose": ["File_close"], "dsize": ["File_get_size"],
         "dsetsize": ["File_set_size"],
         "dread": ["any", "File_set_view", "File_read_at_all", "File_read_at"],
         "dwrite": ["any", "File_set_view", "File_write_at_all", "File_write_at"],
         "wopen": ["File_open", "File_set_view"], "wtr": ["any", "any", "File_set_view", "File_write_at_all", "File_write_at"],
         "wclose": ["any", "any", "File_set_size", "File_write_at_all", "File_write_at", "File_close"],
         "ropen": ["File_open", "File_get_size", "File_read_at_all", "any"],
         "rtr": ["any", "any", "File_set_view", "File_read_at_all", "File_read_at"], "rclose": ["File_close"],
         "sout": ["any", "any", "any", "File_open", "File_set_size", "File_write_at_all", "File_read_at_all", "File_set_view",
                  "File_close"],
         "smm": ["any", "File_read_at_all", "File_set_view"]}
# file calls made when everything is as expected; later ones may not exist, then nothing fails
SPAN = {"sout": 30, "wtr": 8, "rtr": 8, "dread": 10, "dwrite": 10, "smm": 4}


class C(Check):
    models = [Model("MCFault", thorough={"NP": 4, "MAXCH": 3, "MAXFAIL": 5})]
    trace_module = "TrFault"
    watchdog = 12
    assumptions = ["opening a file fails on all processes or on none",
                   "failures are injected at the MPI boundary: the call reports an error after transferring all or nothing",
                   "adding files to a set ends the program on an error, as documented; set scenarios inject failures in output only"]

    def inject(self, rng, sc, only=None):
        P = sc["P"]
        idx = [i for i, o in enumerate(sc["ops"]) if o["op"] in (only or CALLS)]
        if not idx:
            return sc
        for i in rng.sample(idx, min(len(idx), rng.choice([0, 1, 1, 1, 2, 3]))):
            op = sc["ops"][i]
            call = rng.choice(CALLS[op["op"]])
            f = [{} for _ in range(P)]
            if call == "File_open":
                k = rng.randrange(3) if op["op"] == "sout" else 0
                f = [{"call": call, "k": k} for _ in range(P)]
            else:
                span = SPAN.get(op["op"], 5)
                if call != "any":
                    span = max(1, span // 4)
                hit = [rng.randrange(P)] if rng.random() < .7 else [p for p in range(P) if rng.random() < .6]
                same = rng.random() < .5
                k = min(rng.randrange(span), rng.randrange(span))
                pf = rng.randrange(2)
                for p in hit:
                    f[p] = {"call": call, "k": k if same else rng.randrange(span), "perform": pf}
            op["flt"] = f
        return sc

    def native(self, rng, P):
        """failures the file system itself reports"""
        g = DataGen(rng, P, nops=4)
        sc = g.scenario()
        op = sc["ops"][1]
        if rng.random() < .5:
            op["mode"] = "r"           # then writes and resizes are refused
            if rng.random() < .4:
                op["name"] = "nowhere/f"
        else:
            op["name"] = "nowhere/f"
        sc["ops"] = [o for o in sc["ops"] if o["op"] != "cat" or op["mode"] != "r" or op["name"] == "f"]
        return sc

    def scenarios(self, rng, tier):
        n = 600 if tier == "quick" else 2600
        sc = []
        for k in range(n):
            P = [2, 3, 1, 4, 2, 3][k % 6]
            m = rng.random()
            if m < .4:
                s = self.inject(rng, DataGen(rng, P, nops=rng.randrange(3, 9), maxsz=rng.choice([7, 16, 30, 64, 100, 1 << 20])).scenario())
            elif m < .48:
                s = self.native(rng, P)
            elif m < .85:
                g = SegyGen(rng, P, apis=("cc", "cc", "direct", "c"), maxnt=12)
                g.start()
                ops = [g.put("a", nt=rng.randrange(1, 12))] if rng.random() < .6 else []
                if not ops or rng.random() < .6:
                    ops += g.writer("a")
                if rng.random() < .8:
                    ops += g.reader("a", nrd=rng.randrange(1, 4))
                if rng.random() < .3:
                    ops += g.writer("b")
                s = self.inject(rng, {"P": P, "ops": ops})
            else:
                s = self.inject(rng, self.setscen(rng, P), only=["sout", "smm"])
            for o in s["ops"]:
                # after a failure the file may have other traces than planned; two of them have to fit
                if o["op"] in ("wopen", "ropen") and "max" in o:
                    o["max"] = max(o["max"], 2 * (240 + 4 * 40))
            s["faults"] = 1
            s["sid"] = k
            sc.append(s)
        # one history, one failure: every file call of every faultable operation in turn
        for k in range(2 if tier == "quick" else 25):
            P = [2, 3][k % 2]
            g = SegyGen(rng, P, apis=("cc", "direct"), maxnt=8)
            g.start()
            ops = [g.put("a", nt=5, ns=3)] + g.writer("a", nwr=2, ns=3) + g.reader("a", nrd=2)
            for o in ops:
                if "max" in o:
                    o["max"] = max(o["max"], 2 * (240 + 4 * 40))
            if k % 3 == 2:
                ops = self.setscen(rng, P)["ops"]
            for i, o in enumerate(ops):
                if o["op"] in CALLS:
                    for j in range(2 if o["op"] in ("wopen", "ropen", "rclose") else 8 if o["op"] != "sout" else 24):
                        r = rng.randrange(P)
                        oo = list(ops)
                        oo[i] = dict(o, flt=[{"call": "any", "k": j, "perform": rng.randrange(2)} if p == r else {}
                                             for p in range(P)])
                        sc.append({"P": P, "ops": oo, "faults": 1, "sid": len(sc)})
        return sc

    def post(self, sc, trace, sdir):
        with self.lock:
            for e in trace["ev"]:
                for v in e.get("v", []):
                    if isinstance(v, dict) and v.get("ff"):
                        self.hits[e["op"]] = self.hits.get(e["op"], 0) + 1

    def finish(self):
        self.cov["calls_with_failures_by_operation"] = dict(sorted(self.hits.items()))
        return super().finish()

    def __init__(self, tier, seed):
        import threading
        self.lock = threading.Lock()
        self.hits = {}
        super().__init__(tier, seed)

    def setscen(self, rng, P):
        g = SetGen(rng, P)
        ns = rng.choice([4, 12])
        ops = []
        for k in range(rng.randrange(1, 4)):
            ops.append(g.put("in%d.segy" % k, ns if rng.random() < .7 else ns + 1, 4000, rng.randrange(3 * P, 3 * P + 5), keys=True, finite=True))
        o, api = "s", rng.choice(["cc", "c"])
        ops.append({"op": "sopen", "o": o, "api": api, "pattern": "in*.segy"})
        if api == "cc":
            ops.append({"op": "sadd", "o": o, "pattern": "in*.segy"})
        if rng.random() < .5:
            ops.append(g.sort(o, api))
        if rng.random() < .5:
            ops.append({"op": "staper", "o": o, "f": "lin", "l": 2, "r": 1})
        if rng.random() < .3:
            ops.append({"op": "smm", "o": o, "m1": 26, "m2": 27})
        ops.append({"op": "sout", "o": o, "name": "nowhere/o" if rng.random() < .1 else "o", "memlim": g.memlim(ns)})
        if rng.random() < .3:
            ops.append({"op": "sout", "o": o, "name": "p", "memlim": g.memlim(ns)})
        ops.append({"op": "sclose", "o": o})
        return {"P": P, "ops": ops}

    def nontrivial(self, sc):
        return any("flt" in o for o in sc["ops"])
