import struct
from ..check import Check, Model
from ..distgen import TYPES
from ..orders import filekey
from ..segygen import fnv_key
from ..setgen import SetGen

BAD = -1999999999


class C(Check):
    trace_module = "TrTool"
    models = [Model("MCRep", thorough={"MaxF": 36, "MaxB": 7, "MaxP": 5, "MaxRep": 4, "MaxLim": 3})]
    tools = ("makerep", "minmax", "verifysort", "filemake", "traceanalysis", "assess", "sort", "concatenate")
    assumptions = ["the tools' sources are compiled as functions of the driver, one process group serving many runs",
                   "files given to makerep are a whole number of traces; those given to minmax have a trace",
                   "sorted files have three traces per process"]

    # ---- the tools, one scenario each ---------------------------------------------
    def makerep(self, rng, P):
        g = SetGen(rng, P)
        ops = []
        ns = rng.choice([0, 1, 3, 40, 200])
        nt = rng.choice([0, 1, 2, P, 9, 20, 40])
        ops.append(g.put("a", ns, rng.choice([1000, 2000, 4000]), nt, fmt=rng.choice([1, 5])))
        k = rng.random()
        if k < .25:
            ops.append(g.put("b", rng.choice([0, 5, 60]), 3000, rng.choice([0, 3, 90])))
        elif k < .3:
            ops.append({"op": "put", "name": "b", "bytes": [1] * 50})
        rep = rng.choice([1, 1, 2, 2, 3, 4])
        env = {}
        if rng.random() < .8:
            env["EXSEISDAT_VERIF_REPBLOCK"] = str(rng.choice([3600, 3601, 4096, 5000, 8192]))
            env["EXSEISDAT_VERIF_REPLIM"] = str(rng.choice([1, 1, 2, 3, 50]))
        a = ["-i", "@a", "-o", "@b", "-r", str(rep)]
        if rng.random() < .6:
            a += ["-v", rng.choice(["standard", "standard", "naive1", "naive2"])]
        ops.append({"op": "tool", "t": "makerep", "args": a, "in": "a", "to": "b", "rep": rep, "env": env})
        ops.append({"op": "fcat", "name": "b"})
        return ops

    def minmax(self, rng, P):
        g = SetGen(rng, P)
        ops = [g.put("a", rng.choice([0, 2, 7]), rng.choice([1000, 2000]), rng.choice([1, 2, P, rng.randrange(1, 20)]),
                     keys=True)]
        if rng.random() < .3:
            ops.append(g.put("b", 3, 1000, 30))
        ops.append({"op": "tool", "t": "minmax", "args": ["-i", "@a", "-o", "@b"]})
        ops.append({"op": "fcat", "name": "b", "mm": "a"})
        return ops

    def verifysort(self, rng, P):
        from ..distgen import DistGen
        g = DistGen(rng, P)
        t = rng.choice(TYPES)
        n = rng.choice([0, 1, 2, P, P + 1, 2 * P, rng.randrange(0, 16)])
        hd = sorted((g.rawhdr() for _ in range(n)), key=lambda h: filekey(t, h))
        if n > 1 and rng.random() < .7:
            j = rng.randrange(n - 1)
            if P > 1 and rng.random() < .7:
                # the neighbours that belong to different processes
                j = [max(0, min(n - 2, (n // P) * r + min(r, n % P) - 1)) for r in range(1, P)][rng.randrange(P - 1)]
            hd[j], hd[j + 1] = hd[j + 1], hd[j]
        ops = [g.fput("a", hd)]
        for u in [t] if rng.random() < .6 else [t, rng.choice(TYPES)]:
            ops.append({"op": "tool", "t": "verifysort", "in": "a", "type": u,
                        "args": ["-i", "@a"] + (["-t", str(u)] if u != 35 or rng.random() < .5 else [])})
        return ops

    def filemake(self, rng, P):
        ops = []
        for _ in range(2):
            big = rng.random() < .25
            if big:
                ns, nt = rng.choice([20000, 32000]), rng.randrange(3, 16)
            else:
                ns, nt = rng.choice([1, 2, 5, 30]), rng.choice([1, 2, P, 2 * P, 14, rng.randrange(0, 40)])
            inc = rng.choice([1000, 2000, 4000])
            a = ["-o", "@m", "-s", str(ns), "-t", str(nt), "-m", "1", "-i", "%g" % (inc * 1e-6)]
            if rng.random() < .5:
                a.append("-l")
            if rng.random() < .5:
                a.append("-r")
            ops.append({"op": "tool", "t": "filemake", "args": a})
            pos = sorted(set([0, ns - 1] + [rng.randrange(ns) for _ in range(6)]))
            ops.append({"op": "fcat", "name": "m",
                        "made": {"ns": ns, "nt": nt, "inc": inc, "key": fnv_key("Test file\n"), "pos": pos}})
        return ops

    def show(self, rng, P):
        g = SetGen(rng, P)
        ops, names = [], []
        for j in range(rng.choice([1, 2, 3])):
            n = rng.choice(["in%d.segy", "in%d.SGY", "in%d.sgy", "in%d.seg", "in%d.segy.x"]) % j
            if n not in names:
                names.append(n)
                ops.append(g.put(n, rng.choice([0, 2, 9]), rng.choice([1000, 2000, 4000, 500]), rng.randrange(1, 9), keys=True))
        want = sorted(n for n in names if n.lower().endswith(("sgy", "segy")))
        ops.append({"op": "tool", "t": "assess", "args": ["@in*"], "names": want})
        for _ in range(2):
            n = rng.choice(names)
            nt = [len(o["traces"]) for o in ops if o["op"] == "fput" and o["name"] == n][0]
            tn = rng.randrange(nt)
            ops.append({"op": "tool", "t": "traceanalysis", "args": ["-i", "@" + n] + (["-t", str(tn)] if tn else []),
                        "in": n, "tn": tn, "metas": [20, 21, 22, 23, 26, 27]})
        return ops

    def sets(self, rng, P, t):
        g = SetGen(rng, P)
        ops, names = [], []
        many = t == "concatenate"
        geo = [(rng.choice([0, 1, 3, 12]), rng.choice([1000, 2000])) for _ in range(rng.choice([1, 2]) if many else 1)]
        for j in range(rng.choice([1, 2, 3, 4]) if many else 1):
            ns, inc = rng.choice(geo)
            names.append("in%d.segy" % j)
            nt = rng.choice([0, 1, P, rng.randrange(0, 14)]) if many else 3 * P + rng.choice([0, 1, rng.randrange(0, 15)])
            ops.append(g.put(names[-1], ns, inc, nt, keys=not many))
        text = ""
        if many:
            a = ["-i", "@in*", "-o", "@out/res"]
            text = "Concatenated with ExSeisPIOL"
            if rng.random() < .5:
                text = g.sg.text()[:3200]
                a += ["-m", text]
        else:
            ty = rng.choice(TYPES)
            a = ["-i", "@in0.segy", "-o", "@out/res"] + (["-t", str(ty)] if ty != 35 or rng.random() < .5 else [])
        o = {"op": "tool", "t": t, "args": a, "mk": "out", "dump": "out", "names": names, "text": text,
             "key": fnv_key(text)}
        if not many:
            o["type"] = ty
        ops.append(o)
        return ops

    def scenarios(self, rng, tier):
        q = 2 if tier == "quick" else 10
        sc = []
        for k in range(140 * q):
            P = [1, 2, 3, 4, 5][k % 5]
            sc.append({"P": P, "ops": self.makerep(rng, P)})
        for k in range(50 * q):
            P = [1, 2, 3, 4, 5][k % 5]
            sc.append({"P": P, "ops": self.minmax(rng, P)})
            sc.append({"P": P, "ops": self.verifysort(rng, P)})
            sc.append({"P": rng.choice([1, 2, 3, 4, 5, 7]), "ops": self.filemake(rng, P)})
        for k in range(40 * q):
            P = [1, 2, 3, 4][k % 4]
            sc.append({"P": P, "ops": self.sets(rng, P, "concatenate"), "spec": "TrFlow"})
            sc.append({"P": P, "ops": self.sets(rng, P, "sort"), "spec": "TrFlow"})
        for k in range(20 * q):
            P = [1, 2, 3][k % 3]
            sc.append({"P": P, "ops": self.show(rng, P)})
        return sc

    # ---- what of the trace goes to TLC ----------------------------------------------
    def project(self, sc, tr):
        ev = []
        for e in tr["ev"]:
            if e["op"] == "tool" and "files" in e["v"][0]:
                z = [{"err": 0} for _ in e["v"]]
                ev.append({"op": "sopen", "o": "s", "names": e["names"], "outfix": "res", "v": z})
                if e["text"]:
                    ev.append({"op": "stext", "o": "s", "key": e["key"], "v": z})
                if "type" in e:
                    ev.append({"op": "ssort", "o": "s", "type": e["type"], "v": z})
                bad = any(v["rc"] for v in e["v"])
                ev.append({"op": "sclose", "o": "s", "v": [dict(files=v["files"], err=int(bad)) for v in e["v"]]})
            elif e["op"] == "tool":
                e = dict(e)
                e["v"] = [self.printed(e, v) for v in e["v"]]
                e.pop("env", None)
                e.pop("args", None)
                ev.append(e)
            elif e["op"] == "fput":
                ev.append({k: v for k, v in e.items() if k != "text"} | {"v": [{"err": 0} for _ in e["v"]]})
            elif e["op"] == "fcat" and "made" in e:
                v = dict(e["v"][0])
                t = v.pop("trc", [])
                v["lens"] = [len(x) for x in t]
                v["q"] = [[[j, quarters(x[j])] for j in e["made"]["pos"] if j < len(x)] for x in t]
                ev.append(dict(e, v=[v]))
            else:
                ev.append(e)
        return dict(tr, ev=ev)

    def printed(self, e, v):
        r = {"rc": v["rc"]}
        if e["t"] == "verifysort":
            r["success"] = v["out"].count("Success")
            r["failure"] = v["err_"].count("Failure")
        elif e["t"] == "traceanalysis":
            d = dict(x.split(None, 1) for x in v["out"] if len(x.split(None, 1)) == 2)
            r["seen"] = []
            for m, n in ((20, "xSrc"), (21, "ySrc"), (22, "xRcv"), (23, "yRcv"), (26, "il"), (27, "xl")):
                try:
                    x = int(d[n]) if m > 25 else round(float(d[n]) * 10000)
                except (KeyError, ValueError):
                    x = BAD
                r["seen"].append(x if abs(x) < 1 << 31 else BAD)
        elif e["t"] == "assess":
            fs = []
            for x in v["out"]:
                if x.startswith("File: "):
                    fs.append({"name": x.rsplit("/", 1)[-1], "ns": BAD, "nt": BAD, "inc": BAD})
                for k in ("Ns", "Nt", "Inc"):
                    if x.startswith("-?%s: " % k) and fs:
                        y = float(x.split()[-1])
                        fs[-1][k.lower()] = round(y * 1e6) if k == "Inc" else int(y)
            r["found"] = fs
        return r

    def nontrivial(self, sc):
        return sc["P"] > 1


def quarters(w):
    x = 4 * struct.unpack(">f", struct.pack(">i", w))[0]
    return int(x) if x == x and abs(x) < 1 << 30 and x == int(x) else BAD
