from ..check import Check, Model
from ..setgen import SetGen


class C(Check):
    models = [Model("MCFlow", thorough={"PROCS": "{1, 2, 3, 4}", "MAXNT": 4})]
    trace_module = "TrFlow"
    assumptions = ["coordinates of sorted traces are multiples of one half, so that computed offsets are exact",
                   "the per-trace operations are those of C18 and C19, applied to one trace at a time"]

    def scenarios(self, rng, tier):
        n = 400 if tier == "quick" else 1500
        sc = []
        for k in range(n):
            P = [1, 2, 3, 4, 2, 5][k % 6]
            g = SetGen(rng, P)
            combos = [(rng.choice([2, 5, 8, 14, 20]), rng.choice([1000, 2000, 1001, 32767])) for _ in range(rng.choice([1, 1, 2]))]
            if k % 40 == 7:
                combos = [(1001, 1000)]
            if rng.random() < .2:
                g.dg.widen(True, False)
            ops, names, order = [], [], []
            api = rng.choice(["cc", "cc", "cc", "out", "c"])
            rule = []
            if api == "cc" and rng.random() < .3:
                # without a copy of the complete header
                rule = rng.sample([20, 21, 22, 23, 14, 26, 27, 3, 6, 7, 9, 13, 28], rng.randrange(0, 9))
                g.cmp = not rule
            nf = rng.choice([1, 1, 2, 3])
            small = rng.random() < .15
            for f in range(nf):
                ns, inc = rng.choice(combos)
                nm = "in%d.segy" % f
                names.append(nm)
                order.append((ns, inc))
                lo, hi = (0, 3 * P) if small else (3 * P, 3 * P + 9) if ns < 1000 else (3 * P, 3 * P)
                ops.append(g.put(nm, ns, inc, rng.randrange(lo, hi + 1), keys=True, finite=True))
            single = len(set(order)) == nf
            nsmin, nsmax = min(c[0] for c in combos), max(c[0] for c in combos)
            if api == "cc":
                ops.append({"op": "sopen", "o": "s", "api": api, "names": [], "outfix": ""})
                if rule:
                    ops[-1]["rule"] = rule
                od = list(names)
                rng.shuffle(od)
                ops += [{"op": "sadd", "o": "s", "pattern": x, "names": [x]} for x in od]
            else:
                ops.append({"op": "sopen", "o": "s", "api": api, "pattern": "in*", "names": sorted(names),
                            "outfix": rng.choice(["", "res"]) if api == "out" else ""})
            if rng.random() < .5:
                ops.append(g.text("s"))
            outs = rng.choice([1, 1, 2]) if ops[-1].get("outfix", "") == "" or ops[-1]["op"] != "sopen" else 0
            if any(o.get("outfix") == "res" for o in ops) and rng.random() < .7:
                outs = 0
            for q in range(max(outs, 1)):
                chain = []
                todo = [rng.choice("sc") if rng.random() < .8 else "" for _ in range(rng.choice([1, 2, 3, 4]))]
                for t in todo:
                    if t == "s":
                        ops.append(g.sort("s", api, single))
                    elif t == "c":
                        c = g.chainop("s", nsmin)
                        if api == "c" and c["op"] == "sfilt":
                            continue
                        chain.append(c)
                        ops.append(c)
                if chain:
                    ops.append({"op": "simg", "files": names, "chain": chain, "ids": [c["id"] for c in chain]})
                if outs:
                    ops.append({"op": "sout", "o": "s", "name": rng.choice(["x", "y"]), "memlim": g.memlim(nsmax)})
            ops.append({"op": "sclose", "o": "s", "memlim": g.memlim(nsmax)})
            s = {"P": P, "ops": ops}
            if rng.random() < .2:
                s["delay"] = rng.randrange(1, 1 << 30)
            sc.append(s)
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
