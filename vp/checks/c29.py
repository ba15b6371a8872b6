import os, shutil
from concurrent.futures import ThreadPoolExecutor
from .. import build
from .. import run as runner
from ..check import Check, Model


class C(Check):
    """whole programs: one job each"""
    models = [Model("MCLife", thorough={"STEPS": 10})]
    trace_module = "TrLife"
    assumptions = ["an instance is created only where MPI runs or can be started by the library",
                   "no instance is used or deleted after the program itself ended MPI"]

    def scenarios(self, rng, tier):
        sc, seen = [], set()
        fixed = ["NR", "NX", "CR", "NWDR", "INDFR", "INWDX", "TINR", "INTR", "NMX", "MINFR", "MINR", "TNFX", "TIR", "TR",
                 "NDNWDR", "ITNFR", "NTMX", "NMTR", "MTNR", "CDNWR", "NFR", "R", "IFR", "INMTX", "NNX", "NCWR"]
        n = 60 if tier == "quick" else 600
        while len(sc) < n:
            if fixed:
                p = fixed.pop(0)
            else:
                p, s = "", dict(mpi="none", mng="", used=False, live=0)
                for _ in range(rng.randrange(1, 9)):
                    can = ["T", "M"]
                    if s["mpi"] == "none":
                        can += ["I", "I"]
                    if s["mpi"] == "up" and rng.random() < .5:
                        can += ["F"]
                    if s["mpi"] == "up" or (s["mpi"] == "none" and not s["used"] and s["mng"] != "prog"):
                        can += ["N", "C", "N"]
                    if s["live"] and s["mpi"] == "up":
                        can += ["D", "W", "W"]
                    a = rng.choice(can)
                    p += a
                    if a == "T":
                        s["mng"] = "lib"
                    if a == "M":
                        s["mng"] = "prog"
                    if a == "I":
                        s["mpi"] = "up"
                    if a == "F":
                        s["mpi"] = "down"
                    if a in "NC":
                        s["live"] += 1
                        s["used"], s["mpi"] = True, "up"
                    if a == "D":
                        s["live"] -= 1
                p += rng.choice("XR")
            P = 1 if len(sc) < 26 or rng.random() < .6 else rng.choice([2, 3])
            if (p, P) in seen:
                continue
            seen.add((p, P))
            sc.append({"P": P, "prog": p, "ops": [{"op": a} for a in p]})
        return sc

    def one(self, exe, sc):
        d = self.work.sub()
        out = os.path.join(d, "log")
        rc, txt = runner.mpirun(sc["P"], [exe, out, sc["prog"]], timeout=120)
        per = []
        for r in range(sc["P"]):
            try:
                per.append([ln.split() for ln in open(out + "." + str(r)).read().splitlines()])
            except OSError:
                per.append([])
        ev = []
        at = [0] * sc["P"]
        for a in sc["prog"]:
            v = []
            for r in range(sc["P"]):
                lib, res = [], None
                while at[r] < len(per[r]):
                    ln = per[r][at[r]]
                    at[r] += 1
                    if ln[0] == "l":
                        lib.append(ln[1])
                    elif ln[0] == "s" and ln[1] == a:
                        res = {"mpi": [int(ln[2][0]), int(ln[2][1])], "ok": int(ln[2][2])}
                        break
                    elif ln[0] == "end":
                        res = {"mpi": [int(ln[1][0]), int(ln[1][1])], "ok": 1}
                        break
                if res:
                    v.append(dict(res, lib=lib))
            if len(v) < sc["P"]:
                ev.append({"op": "ABORT", "kind": "hang" if rc == -1 else "the program died"})
                break
            ev.append({"op": a, "v": v})
        else:
            ev.append({"op": "END"})
        shutil.rmtree(d, ignore_errors=True)
        return {"sid": sc["sid"], "P": sc["P"], "ev": ev}

    def execute(self, scens):
        exe = build.program(os.path.join(build.VERIF, "lifecycle", "life.cc"))
        with ThreadPoolExecutor(4) as ex:
            return {t["sid"]: t for t in ex.map(lambda s: self.one(exe, s), scens)}

    def nontrivial(self, sc):
        return any(a in sc["prog"] for a in "NC")
