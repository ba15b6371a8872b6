import copy, importlib
from ..check import Check, Model
from ..mix import Pool
from ..segygen import SegyGen
from ..setgen import SetGen

SOURCES = ["c05", "c06", "c07", "c09", "c12", "c15", "c16", "c18", "c19", "c20", "c22"]


def lim(x):
    return [(x >> (16 * k)) & 0xffff for k in range(4)]


def other(sc, c):
    """the same program over the C interface (c) or the C++ classes"""
    s = copy.deepcopy(sc)
    for op in s["ops"]:
        o = op["op"]
        if o in ("wopen", "ropen"):
            op["api"] = "c" if c else "direct"
        elif o == "sopen":
            op["api"] = "c" if c else "out"
        elif o == "simg":
            pass
        elif "api" in op:
            op["api"] = "c" if c else "cc"
    if c and s.get("piol", 1) and "groups" not in s:
        s["capi"] = 1
    return s


def convertible(sc):
    """what the C interface can say"""
    if sc.get("faults") or "groups" in sc:
        return False
    skip = False
    for op in sc["ops"]:
        o = op["op"]
        if o == "sopen" and (op.get("api") == "cc" or op.get("outfix")):
            return False
        if o == "sfilt" or (o == "ssort" and "rule" in op):
            return False
        if o == "sadd":
            return False
        if o in ("wopen", "ropen"):
            for k in ("max", "coll", "fcomm"):
                op.pop(k, None)
            skip = True
        if o in ("wtr", "rtr"):
            for a in op["a"]:
                a.pop("skip", None)
        if o == "rnew":
            op["full"], op["extras"] = 1, 0
            if op["list"]:
                op["defaults"] = 0
    return True


class C(Check):
    """programs over both interfaces; handles of the C interface"""
    models = [Model("MCHandle", consts={"MAXH": 6}, thorough={"MAXH": 7}, deadlock=True)]
    trace_module = "TrTwin"
    assumptions = ["the C interface has no temporal filtering, no rules for sets and no options for opening files; "
                   "programs use what both interfaces can say"]

    def handles(self, rng):
        """creation, use and deletion in any order"""
        P = rng.choice([1, 1, 2, 3])
        g = SegyGen(rng, P)
        g.start()
        ops = [g.put("in.segy", rng.choice([1, 3]), rng.randrange(1, 5), fmt=5)]
        kinds, n = {}, 0
        for _ in range(rng.randrange(6, 26)):
            k = rng.random()
            if k < .5 or not kinds:
                t = rng.choice(["piol", "rule", "param", "param", "reader", "reader", "writer", "set"])
                need = {"param": "rule", "reader": "piol", "writer": "piol", "set": "piol"}.get(t)
                have = [h for h in kinds if kinds[h] == need]
                if need and not have:
                    t, have = need, []
                n += 1
                op = {"op": "hnew", "h": "h%d" % n, "k": t, "x": 0}
                if have:
                    op["from"] = rng.choice(have)
                if t == "rule":
                    # 4-byte quantities at increasing places: the extent follows from the list
                    op["metas"], op["x"] = rng.choice([([14], 20), ([26], 192), ([14, 26], 192), ([3], 0)])
                    if op["metas"] == [3]:
                        op["metas"], op["x"] = [27], 196
                    op["x"] = 0
                elif t == "param":
                    op["n"] = rng.randrange(0, 5)
                    op["x"] = op["n"]
                elif t == "reader":
                    op["name"] = "in.segy"
                    op["x"] = len(ops[0]["traces"])
                elif t == "writer":
                    op["name"] = "w%d" % n
                elif t == "set":
                    op["name"] = "in.segy"
                kinds[op["h"]] = t
                ops.append(op)
            else:
                h = rng.choice(sorted(kinds))
                if k < .78:
                    ops.append({"op": "hdel", "h": h})
                    del kinds[h]
                elif kinds[h] != "rule":
                    ops.append({"op": "huse", "h": h})
        for h in rng.sample(sorted(kinds), len(kinds)):
            ops.append({"op": "hdel", "h": h})
        return {"P": P, "ops": ops, "kind": "handles"}

    def scenarios(self, rng, tier):
        m = 2 if tier == "quick" else 4
        sc = [self.handles(rng) for _ in range(60 * m)]
        pool = Pool(rng, SOURCES)
        prog = []
        per = dict.fromkeys(SOURCES, 0)
        want = {"c09": 60, "c16": 40, "c15": 25, "c12": 30, "c05": 30, "c06": 25, "c07": 50, "c18": 12, "c19": 12, "c20": 10, "c22": 10}
        for P in sorted(pool.byP):
            for s, lst in pool.byP[P].items():
                rng.shuffle(lst)
        for s in SOURCES:
            lst = [x for P in sorted(pool.byP) for x in pool.byP[P].get(s, [])]
            rng.shuffle(lst)
            for x in lst:
                if per[s] >= want[s] * m:
                    break
                x = copy.deepcopy(x)
                if len(x["ops"]) > 60:
                    x["ops"] = x["ops"][:60] if s in ("c18", "c19") else x["ops"]
                if s == "c22" and not any(o["op"] == "logcheck" for o in x["ops"]):
                    continue
                if s == "c09" and any(o["op"] == "pnew" for o in x["ops"]) and \
                        any(o["op"] == "rnew" and not (o["full"] and not o["extras"] and (not o["list"] or not o["defaults"])) for o in x["ops"]):
                    continue
                if convertible(x):
                    per[s] += 1
                    prog.append(x)
        for k in range(12 * m):
            P = rng.choice([1, 2, 3, 5])
            big = lambda: rng.choice([rng.randrange(100), rng.randrange(1 << 20), rng.randrange(1 << 32), rng.randrange(1 << 53)])
            ops = []
            for _ in range(4):
                if rng.random() < .5:
                    ops.append({"op": "sizes", "api": "c", "x": [[lim(rng.choice([0, 1, rng.randrange(1 << 20), rng.randrange(1 << 33)])),
                                                                 lim(rng.choice([0, 1, rng.randrange(40000), rng.randrange(1 << 28)]))]
                                                                for _ in range(6)]})
                else:
                    ops.append({"op": "exs", "api": "c", "msg": rng.randrange(2),
                                "a": [{"n": lim(big() if rng.random() < .9 else (1 << 64) - 1 - big())} for _ in range(P)]})
            prog.append({"P": P, "ops": ops, "from": "own"})
        for x in prog:
            k = [q for q, o in enumerate(x["ops"]) if o["op"] in ("stext", "ssort", "sout", "smm")]
            if k and rng.random() < .6:
                at = rng.choice(k)
                x["ops"].insert(at, {"op": "ssum", "o": "s"})
            a, b = other(x, True), other(x, False)
            for o in a["ops"]:
                if o["op"] in ("wopen", "ropen", "sopen") and rng.random() < .5:
                    o["hdrop"] = 1
            b["delay"] = a.get("delay", 0)
            sc += [a, b]
        for i, s in enumerate(sc):
            s["sid"] = i
            if "kind" not in s:
                s["pair"] = i - (i - 60 * m) % 2
        return sc

    def decide(self, scens, label=""):
        self.all = {s["sid"]: s for s in scens}
        super().decide(scens, label)

    def execute(self, scens):
        # a program run again is run again over both interfaces
        extra, nid = [], max(s["sid"] for s in scens) + 1
        ids = {s["sid"] for s in scens}
        self.mate = {}
        if len(scens) < len(self.all):
            for s in scens:
                if "pair" in s:
                    b = copy.deepcopy(self.all[s["pair"] + 1])
                    b["sid"] = nid
                    self.mate[s["sid"]] = nid
                    nid += 1
                    extra.append(b)
        else:
            self.mate = {s["sid"]: s["sid"] + 1 for s in scens if "pair" in s and s["sid"] == s["pair"]}
        return super().execute(scens + extra)

    def validate(self, scens, traces):
        subs, tr, of, n = [], {}, {}, 0
        for sc in scens:
            if sc["sid"] not in traces:
                continue
            if sc.get("kind") == "handles":
                subs.append({"sid": n, "spec": "TrHandle"})
                tr[n] = traces[sc["sid"]]
                tr[n] = dict(tr[n], sid=n)
                of[n] = sc["sid"]
                n += 1
                continue
            t = traces[sc["sid"]]
            if sc.get("from") != "own":
                # the program means what its specification says
                subs.append({"sid": n, "spec": sc["spec"]})
                x = {"sid": n, "P": sc["P"], "ev": [e for e in t["ev"] if e["op"] != "ssum"]}
                src = importlib.import_module("vp.checks." + sc["from"].lower()).C
                tr[n] = src.project(None, sc, x)
                of[n] = sc["sid"]
                n += 1
            if sc["sid"] in self.mate and self.mate[sc["sid"]] in traces:
                d = traces[self.mate[sc["sid"]]]
                ev = []
                for x, y in zip(t["ev"], d["ev"]):
                    e = {k: v for k, v in x.items() if k in ("op", "x", "a") and x["op"] in ("sizes", "exs") or k == "op"}
                    if x["op"] == y["op"] and x["op"] != "ABORT":
                        # places of a file that nothing was written to are not specified; what
                        # was written is judged by TrSegy
                        drop = ("names", "hasnames") if x["op"] != "fcat" else ("hdr", "trc", "exists", "key")
                        if x["op"] == "rtr" and any(o["op"] == "wtr" for o in sc["ops"]):
                            drop = ("trc", "prm")
                        if sc.get("from") == "C20":
                            # a C string ends at the first NUL
                            drop = ("text", "len")
                            x, y = copy.deepcopy(x), copy.deepcopy(y)
                            for v in x.get("v", []) + y.get("v", []):
                                if "rl" in v:
                                    z = [q[0] for q in v["rl"]]
                                    v["rl"] = v["rl"][:z.index(0) if 0 in z else len(z)]
                        if x["op"] == "END":
                            e["op"], e["c"], e["d"] = "last", x["left"], y["left"]
                        else:
                            e["c"] = [{k: w for k, w in v.items() if k not in drop} for v in x["v"]]
                            e["d"] = [{k: w for k, w in v.items() if k not in drop} for v in y["v"]]
                    else:
                        e = {"op": "ABORT", "kind": "one of the two runs (%s, %s)" % (x.get("kind", "C done"), y.get("kind", "C++ done"))}
                    ev.append(e)
                subs.append({"sid": n, "spec": "TrTwin"})
                tr[n] = {"sid": n, "P": sc["P"], "ev": ev}
                of[n] = sc["sid"]
                n += 1
        out = {}
        for x, (pos, why) in sorted(super().validate(subs, tr).items()):
            out.setdefault(of[x], (pos, why))
        return out

    def nontrivial(self, sc):
        return sc.get("kind") == "handles" or len(sc["ops"]) > 2
