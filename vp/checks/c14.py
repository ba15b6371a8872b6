from ..check import Check, Model


class C(Check):
    models = [Model("MCVector", thorough={"N": 4, "PROCS": 3})]
    trace_module = "TrDist"
    assumptions = ["between two synchronisation points an element is stored by one process only, and not loaded by another"]

    def scenarios(self, rng, tier):
        q = 3 if tier == "quick" else 10
        sc = []
        for k in range(130 * q):
            P = [1, 2, 3, 4, 5, 3][k % 6]
            ops, vs = [], []
            for j in range(rng.randrange(1, 3)):
                n = rng.choice([1, 2, P - 1, P, P + 1, 3 * P + 1, rng.randrange(1, 40), rng.randrange(100, 3000)])
                n = max(n, 1 if rng.random() < .9 else 0)
                w = rng.choice([0, 1, 2, 6, 41])
                ops.append({"op": "vnew", "o": "v%d" % j, "n": n, "words": w})
                vs.append((n, w))
            full = rng.random() < .4
            for ph in range(rng.randrange(2, 7)):
                j = rng.randrange(len(vs))
                n, w = vs[j]
                style = rng.random()
                own = {}

                def val():
                    return rng.randrange(0, 256) if w == 0 else rng.randrange(1, 1 << 30)
                a = []
                focus = [rng.randrange(n) for _ in range(6)] if n and n > 40 else list(range(n))
                owner = {i: rng.randrange(P) for i in focus}
                if full and ph == 0:
                    # every element stored, each by some process, as the code that builds lists does
                    owner = {i: rng.randrange(P) for i in range(min(n, 60))}
                    for r in range(P):
                        acts = [[1, i, val()] for i in owner if owner[i] == r]
                        rng.shuffle(acts)
                        a.append({"acts": acts})
                else:
                    for r in range(P):
                        acts = []
                        for _ in range(rng.randrange(0, 12)):
                            kind = rng.random()
                            if kind < .1:
                                acts.append([rng.randrange(2), rng.choice([n, n + 1, n + P, 10 * n + 7, -1, -n - 1]), val()])
                            elif style < .3 or not owner:
                                # loads only
                                if n:
                                    acts.append([0, rng.choice(focus + [n - 1, 0]), 0])
                            else:
                                i = rng.choice(focus)
                                if owner[i] == r:
                                    acts.append([rng.choice([0, 1, 1]), i, val()])
                        a.append({"acts": acts})
                ops.append({"op": "vphase", "o": "v%d" % j, "a": a})
                if rng.random() < .7:
                    ops.append({"op": "vphase", "o": "v%d" % j,
                                "a": [{"acts": [[0, i, 0] for i in rng.sample(focus, len(focus))]} for _ in range(P)]})
            for j in range(len(vs)):
                ops.append({"op": "vfree", "o": "v%d" % j})
            sc.append({"P": P, "ops": ops, "piol": 0, "delay": rng.randrange(0, 1 << 30) if rng.random() < .5 else 0})
        return sc

    def nontrivial(self, sc):
        return sc["P"] > 1
