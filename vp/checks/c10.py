from ..check import Check, Model
from ..distgen import DistGen, TYPES, NEED, LTN, GTN, COPY
from ..segygen import SegyGen, ALL


class C(Check):
    models = [Model("MCSort", thorough={"PROCS": 3, "SIZES": "{3}", "VALS": "{0, 1}"})]
    trace_module = "TrDist"
    assumptions = ["at least three entries per process", "original trace numbers are a permutation of 0..N-1"]

    def one(self, rng, P, big=False):
        g = DistGen(rng, P)
        sz = g.sizes(3, 40 if big else 9)
        if big:
            sz = [s if rng.random() < .5 else rng.randrange(17, 60) for s in sz]
        N = sum(sz)
        op = {"op": "psort", "fo": rng.randrange(2)}
        metas = list(NEED)
        if rng.random() < .3:
            op["by"] = rng.choice([[26], [26], [20], [14, 26], [27, 26], [13] if 0 else [26, 27]])
            metas = [26, 27, 20, 14]
        else:
            op["type"] = rng.choice(TYPES)
        if rng.random() < .25:
            # the computed offset is exact for moderate coordinates only
            g.widen(rng.random() < .7, op.get("type") not in (36, 38, 40, 42))
        extra = rng.sample([m for m in ALL if m not in metas], rng.randrange(0, 5))
        rule = metas + [LTN, GTN] + extra
        if rng.random() < .25:
            rule = rule + [COPY] if rng.random() < .5 else [COPY] + rule
        if rng.random() < .3:
            rng.shuffle(rule)
        op["rule"] = rule
        sg = SegyGen(rng, P)
        gt = list(range(N))
        k = rng.random()
        if k < .3:
            rng.shuffle(gt)
        rows = []
        for i in range(N):
            row = []
            for m in rule:
                if m == COPY:
                    row.append(sg.rawhdr())
                elif m == GTN:
                    row.append(gt[i])
                elif m == LTN:
                    row.append(gt[i])
                elif m in metas:
                    row.append(g.value(m))
                else:
                    row.append(sg.val(m))
            rows.append(row)
        k = rng.random()
        q = rule.index(metas[0])
        if k < .15:
            rows.sort(key=lambda r: r[q])
        elif k < .35:
            rows.sort(key=lambda r: -r[q])      # the furthest everything can have to move
        a, p = [], 0
        for s in sz:
            a.append({"rows": rows[p:p + s]})
            p += s
        op["a"] = a
        return op

    def scenarios(self, rng, tier):
        n = 420 if tier == "quick" else 1400
        sc = []
        for k in range(n):
            P = [1, 2, 3, 4, 5, 2, 3][k % 7]
            s = {"P": P, "ops": [self.one(rng, P, big=rng.random() < .12) for _ in range(2)]}
            if rng.random() < .3:
                s["delay"] = rng.randrange(1, 1 << 30)
            sc.append(s)
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
