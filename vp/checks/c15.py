from ..check import Check, Model
from ..setgen import SetGen


class C(Check):
    models = [Model("MCFlow", thorough={"PROCS": "{1, 2, 3, 4}", "MAXNT": 4})]
    trace_module = "TrFlow"
    assumptions = ["input files are valid SEG-Y files", "block size below the built-in limit set through EXSEISDAT_VERIF_MEMLIM"]

    def scenarios(self, rng, tier):
        n = 500 if tier == "quick" else 1500
        sc = []
        for k in range(n):
            P = [1, 2, 3, 4, 2, 5][k % 6]
            g = SetGen(rng, P)
            # combinations of samples per trace and interval, sometimes sharing one of the two
            combos = [(rng.choice([0, 1, 2, 5, 8]), rng.choice([1000, 2000, 4000, 1001, 3999, 1, 32767, 16384])) for _ in range(rng.choice([1, 1, 2, 3]))]
            ops = []
            nf = rng.choice([1, 1, 2, 3, 4, 5]) if rng.random() < .97 else 13
            names = []
            for f in range(nf):
                ns, inc = rng.choice(combos)
                nm = "in%d.%s" % (f, rng.choice(["segy", "sgy", "SEGY"]))
                names.append(nm)
                ops.append(g.put(nm, ns, inc, rng.choice([0, 1, 2, 3, rng.randrange(0, 9), rng.randrange(0, 14)]),
                                 fmt=rng.choice([5, 5, 5, 1])))
            # something that is not taken in by a pattern
            if rng.random() < .2:
                ops.append(g.put("in9.txt", 3, 1000, 2))
            nsmax = max(c[0] for c in combos)
            api = rng.choice(["cc", "cc", "cc", "out", "c"])
            rest = []
            if api == "cc":
                ops.append({"op": "sopen", "o": "s", "api": api, "names": [], "outfix": ""})
                order = list(names)
                rng.shuffle(order)
                if rng.random() < .2:
                    order.append(rng.choice(names))
                add = [{"op": "sadd", "o": "s", "pattern": x, "names": [x], "ifc": rng.randrange(2)} for x in order]
                if rng.random() < .3:
                    cut = rng.randrange(1, len(add) + 1)
                    add, rest = add[:cut], add[cut:]
                ops += add
            else:
                ops.append({"op": "sopen", "o": "s", "api": api, "pattern": "in*", "names": sorted(names),
                            "outfix": rng.choice(["", "res"]) if api == "out" else ""})
                if rng.random() < .3:
                    ops.append({"op": "sadd", "o": "s", "pattern": "in*", "names": sorted(names)})
            if rng.random() < .8:
                # at any moment: adding files afterwards does not change it
                at = len(ops) if rng.random() < .5 else rng.randrange(1 + [o["op"] for o in ops].index("sopen"), len(ops) + 1)
                ops.insert(at, g.text("s"))
            if not any(o.get("outfix") == "res" for o in ops):
                for _ in range(rng.choice([0, 1, 1, 1, 2])):
                    if rest and rng.random() < .5:
                        ops += rest
                        rest = []
                        if rng.random() < .5:
                            ops.append(g.text("s"))
                    ops.append({"op": "sout", "o": "s", "name": rng.choice(["x", "res", "Y_1"]), "memlim": g.memlim(nsmax)})
            ops.append({"op": "sclose", "o": "s", "memlim": g.memlim(nsmax)})
            s = {"P": P, "ops": ops}
            if rng.random() < .2:
                s["delay"] = rng.randrange(1, 1 << 30)
            sc.append(s)
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
