from ..check import Check


class C(Check):
    trace_module = "TrLog"
    assumptions = ["messages and file names are single words, so that the emitted lines can be split"]

    def rec(self, rng, o):
        r = rng.random()
        op = {"op": "logrec", "o": o, "file": rng.choice(["f", "g", "a.segy"]), "layer": rng.randrange(10),
              "stat": rng.choice([0, 1, 2, 3, 4]) if r < .6 else rng.choice([0, 1, 2, 4]),
              "msg": rng.choice(["m", "n", "x%d" % rng.randrange(100)]), "verb": rng.randrange(5)}
        if rng.random() < .3:
            op["cond"] = rng.randrange(2)
        return op

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 10
        sc = []
        for k in range(250 * q):
            ops, live = [], []
            errfree = rng.random() < .4
            for _ in range(rng.randrange(1, 14)):
                w = rng.random()
                if w < .15 and len(live) < 3:
                    o = "l%d" % len(ops)
                    op = {"op": "lognew", "o": o, "max": rng.randrange(5)}
                    if op["max"] == 0:
                        op["def"] = rng.randrange(2)
                    ops.append(op)
                    live.append(o)
                elif w < .7:
                    op = self.rec(rng, rng.choice(live + ["piol"]))
                    if errfree and op["stat"] == 3:
                        op["stat"] = 2
                    ops.append(op)
                elif w < .82:
                    ops.append({"op": "logproc", "o": rng.choice(live + ["piol"])})
                elif w < .9 and live:
                    ops.append({"op": "logdel", "o": live.pop(rng.randrange(len(live)))})
                else:
                    op = {"op": "logcheck", "api": rng.choice(["cc", "c"])}
                    if rng.random() < .5:
                        op["msg"] = "check"
                    ops.append(op)
            for op in ops:
                op["noerr"] = 1
            sc.append({"P": 1, "verbosity": rng.randrange(5), "ops": ops})
        return sc

    def project(self, sc, trace):
        t = dict(trace)
        t["max"] = sc["verbosity"]
        return t
