import copy
from ..check import Check, Model
from ..mix import Pool
from ..run import members


class C(Check):
    """scenarios of the other checks, run by disjoint groups of processes at the same time"""
    models = [Model("MCComm", deadlock=True, thorough={"NG": 3})]
    trace_module = "TrComm"
    watchdog = 25

    def scenarios(self, rng, tier):
        n = 300 if tier == "quick" else 1200
        pool = Pool(rng)
        sc = []
        for k in range(n):
            P = [2, 3, 4, 5, 4, 6][k % 6]
            ng = rng.choice([2, 2, 2, 3]) if P > 2 else 2
            while True:
                groups = [rng.randrange(ng) for _ in range(P)]
                if len(set(groups)) == ng:
                    break
            if rng.random() < .3:
                groups.sort(key=lambda g: -g if rng.random() < 0 else g)
            idle = rng.randrange(ng) if rng.random() < .45 else -1
            parts, gops = [], []
            for g in range(ng):
                if g == idle:
                    parts.append(None)
                    gops.append([])
                    continue
                s = copy.deepcopy(pool.draw(groups.count(g)))
                parts.append({"spec": s["spec"], "from": s["from"]})
                gops.append(s["ops"])
            c = {"P": P, "groups": groups, "gops": gops, "parts": parts, "trace": 1, "ops": []}
            if rng.random() < .4:
                c["rev"] = 1
            if rng.random() < .5:
                c["delay"] = rng.randrange(1, 1 << 30)
            sc.append(c)
        return sc

    def execute(self, scens):
        for sc in scens:
            for s in sc["parts"]:
                if s:
                    k = self.cov.setdefault("instances_by_source", {})
                    k[s["from"]] = k.get(s["from"], 0) + 1
        return super().execute(scens)

    def validate(self, scens, traces):
        """each group's history by the specification of what it does, and its
        communication steps by TrComm"""
        subs, tr, of = [], {}, {}
        n = 0
        for sc in scens:
            if sc["sid"] not in traces:
                continue
            t = traces[sc["sid"]]
            last = t["ev"][-1]
            for g, part in enumerate(sc["parts"]):
                mem = members(sc, g)
                tail = dict(last)
                if tail["op"] == "END":
                    for q in ("live", "lerr", "left"):
                        tail[q] = [last[q][r] for r in mem]
                if part:
                    ev = [{k: v for k, v in e.items()} for e in t["gev"][g]]
                    for e in ev:
                        e["v"] = [{k: x for k, x in v.items() if k != "calls"} for v in e["v"]]
                    of[n] = (sc["sid"], g)
                    subs.append({"sid": n, "spec": part["spec"]})
                    tr[n] = {"sid": n, "P": len(mem), "ev": ev + [tail]}
                    n += 1
                ev = [{"op": e["op"], "calls": [v.get("calls", []) for v in e["v"]]} for e in t["gev"][g]]
                if tail["op"] == "END":
                    ev.append({"op": "END", "calls": [t["endcalls"][r] for r in mem]})
                else:
                    ev.append(tail)
                of[n] = (sc["sid"], g)
                subs.append({"sid": n, "spec": "TrComm"})
                tr[n] = {"sid": n, "P": len(mem), "own": "group%d" % g, "ev": ev}
                n += 1
        out = {}
        for x, (pos, why) in sorted(super().validate(subs, tr).items()):
            sid, g = of[x]
            out.setdefault(sid, (pos, "group %d: %s" % (g, why)))
        return out

    def nontrivial(self, sc):
        return sum(1 for p in sc["parts"] if p) > 1
