from ..check import Check, Model
from ..segygen import SegyGen, distant


def known(ops):
    """after an error only a file which was there and was not written to is looked at"""
    err, good, wrote, ns, out, of = False, set(), set(), set(), [], {}
    for op in ops:
        o = op["op"]
        err = err or (o == "winc" and (op["us"] == 0 or abs(op["us"]) > 32767)) or \
            (o == "wns" and op["n"] > 32767) or (o == "wtr" and op["o"] not in ns)
        if o == "fput":
            good.add(op["name"])
        elif o in ("wopen", "ropen"):
            of[op["o"]] = op["name"]
        elif o == "wns" and op["n"] <= 32767:
            ns.add(op["o"])
        elif o == "wtr" and any(a.get("n") or a.get("offs") for a in op["a"]):
            wrote.add(op["o"])
        elif o == "wclose":
            if not err:
                good.add(of[op["o"]])
            elif op["o"] in wrote:
                good.discard(of[op["o"]])
        # how large it is now, the generator does not know
        if (err and o == "rtr") or (o == "fcat" and op["name"] not in good) or (o[0] == "r" and of[op["o"]] not in good):
            continue
        out.append(op)
    return out


class C(Check):
    models = [Model("MCWriter", thorough={"NP": 3, "STEPS": 4, "MAXT": 4})]
    trace_module = "TrSegy"
    assumptions = ["concurrent writes of different processes do not address the same trace",
                   "the MPI implementation performs the calls it is given"]

    def scenarios(self, rng, tier):
        n = 800 if tier == "quick" else 3000
        sc = []
        for k in range(n):
            g = SegyGen(rng, [1, 2, 3, 4][k % 4], apis=("cc", "cc", "direct", "c"))
            g.start()
            far = g.shape()
            g.refuse = rng.random() < .5
            ops = []
            if rng.random() < .3:
                ops.append(g.put("a"))
            elif rng.random() < .3:
                ops.append(g.junk("a"))
            ops += g.writer("a")
            ops.append({"op": "fcat", "name": "a"})
            ops += g.reader("a", nrd=rng.randrange(2))
            if rng.random() < .5:
                ops += g.writer("a")
                ops.append({"op": "fcat", "name": "a"})
                ops += g.reader("a", nrd=0)
            ops = known(ops)
            sc.append({"P": g.P, "ops": distant(rng, ops) if far else ops})
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
