from ..check import Check, Model
from ..segygen import SegyGen, FLOATS, SHORTS, LONGS, ALL, LOC, SCALEW, DEFAULT
EXTRAS = [3, 4, 6, 10, 9, 12, 13, 15, 16, 17, 7, 8, 11, 29, 28]
SCALB = {34: 69, 35: 71, 100: 201}
MISC = [30, 31, 32]
TYPE = {**{m: 1 for m in FLOATS}, **{m: 2 for m in LONGS}, **{m: 3 for m in SHORTS}, 0: 0, 1: 4, 2: 4}


class C(Check):
    models = [Model("MCRules", thorough={"M": "{1,2,3,4,5}", "STEPS": 9})]
    trace_module = "TrRule"
    assumptions = ["rules are not changed after a parameter structure was built from them",
                   "with a raw header copy in a rule, quantities keep their standard places"]

    def rule_history(self, rng, names, api, n, std):
        """-> ops; keeps the generator's own view only to avoid undefined requests"""
        ops = []
        for _ in range(n):
            k = rng.random()
            if k < .25 or not names:
                o = "r%d" % len(names)
                lst = rng.randrange(2)
                metas = [rng.choice(ALL + [0] + ([1, 2, 30, 31] if rng.random() < .2 else [])) for _ in range(rng.randrange(0, 7))] if lst else []
                op = {"op": "rnew", "o": o, "api": api(), "list": lst, "metas": metas, "full": 1 if rng.random() < .7 else 0,
                      "defaults": rng.randrange(2), "extras": rng.randrange(2)}
                if op["api"] == "c":
                    # the C interface: from a list: no defaults; else defaults as asked, no extras
                    op["extras"] = 0
                    op["full"] = 1
                    if lst:
                        op["defaults"] = 0
                if not op["list"] and op["api"] != "c" and False:
                    pass
                names.append(o)
                ops.append(op)
                continue
            o = rng.choice(names)
            kind = rng.choice(["add", "add", "rm", "rm", "merge", "long", "short", "float", "index", "copy"])
            m = rng.choice(ALL)
            op = {"op": "rop", "o": o, "k": kind, "api": api()}
            if kind == "add":
                op["m"] = rng.choice(ALL + [0, 1, 2, 30, 31])
            elif kind == "rm":
                op["m"] = rng.choice(ALL + [0, 1, 2])
            elif kind == "merge":
                op["from"] = rng.choice(names)
            elif kind in ("long", "short", "float"):
                if std:
                    m = rng.choice({"long": LONGS, "short": SHORTS, "float": FLOATS}[kind])
                    op.update(m=m, loc=LOC[m])
                    if kind == "float":
                        op["scal"] = SCALB[SCALEW[m]]
                else:
                    op.update(m=m, loc=rng.choice(sorted(LOC.values())))
                    if kind == "float":
                        op["scal"] = rng.choice([69, 71, 201])
            elif kind == "index":
                op["m"] = rng.choice([1, 2] if std else ALL + [1, 2])
            ops.append(op)
        return ops

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 8
        sc = []
        for k in range(200 * q):
            apis = rng.choice([("cc",), ("c",), ("cc", "c")])
            api = lambda: rng.choice(apis)
            names = []
            sc.append({"P": 1, "piol": 0, "ops": self.rule_history(rng, names, api, rng.randrange(3, 22), rng.random() < .3)})
        for k in range(300 * q):
            apis = rng.choice([("cc",), ("c",), ("cc", "c")])
            api = lambda: rng.choice(apis)
            g = SegyGen(rng, 1)
            names, ops, sel = [], [], {}
            for j in range(rng.randrange(1, 4)):
                o = "r%d" % j
                metas = rng.sample(ALL, rng.randrange(0, 10))
                if rng.random() < .35:
                    metas.append(0)
                op = {"op": "rnew", "o": o, "api": api(), "list": 1, "metas": metas, "full": 1, "defaults": 0, "extras": 0}
                s = set(metas) | {1, 2}
                ops.append(op)
                for _ in range(rng.randrange(0, 4)):
                    m = rng.choice(ALL)
                    if rng.random() < .5 and m in s:
                        ops.append({"op": "rop", "o": o, "k": "rm", "m": m, "api": api()})
                        s.discard(m)
                    elif rng.random() < .5:
                        ops.append({"op": "rop", "o": o, "k": "add", "m": m, "api": api()})
                        s.add(m)
                    elif names and rng.random() < .5:
                        f = rng.choice(names)
                        ops.append({"op": "rop", "o": o, "k": "merge", "from": f, "api": api()})
                        s |= sel[f]
                names.append(o)
                sel[o] = s
            params = {}
            for j in range(rng.randrange(1, 5)):
                o = "p%d" % j
                n = rng.randrange(1, 5)
                op = {"op": "pnew", "o": o, "n": n, "api": api()}
                if rng.random() < .9:
                    op["rule"] = rng.choice(names)
                    params[o] = (sel[op["rule"]], n)
                else:
                    params[o] = (set(DEFAULT) | {1, 2}, n)
                ops.append(op)
            for _ in range(rng.randrange(2, 25)):
                o = rng.choice(sorted(params))
                s, n = params[o]
                if rng.random() < .7:
                    m = rng.choice(sorted(s))
                    if rng.random() < .05:
                        m = rng.choice(ALL)
                    op = {"op": "pset", "o": o, "k": rng.randrange(n), "m": m, "t": TYPE[m], "api": api()}
                    if m == 0:
                        if 0 not in s:
                            continue
                        op["x"] = g.rawhdr()
                    elif m in (1, 2):
                        op["x"] = rng.randrange(100000)
                    else:
                        op["x"] = g.val(m)
                    ops.append(op)
                else:
                    src = rng.choice(sorted(params))
                    ops.append({"op": "pcpy", "src": src, "j": rng.randrange(params[src][1]), "o": o, "k": rng.randrange(n),
                                "api": api()})
            sc.append({"P": 1, "piol": 0, "ops": ops})
        return sc
