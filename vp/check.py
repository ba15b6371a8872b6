"""The shape every check has: model-check the design, run scenarios on the real
code, have TLC decide whether each recorded trace is a behaviour of the
specification."""
import json, os, random, sys, time, traceback, threading, copy

from . import build, run as runner, tlc

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln and not ln.startswith("#"):
                j = json.loads(ln)
                if j.get("property") == pid and j.get("status") == "known":
                    out.append(j)
    return out


class Model:
    """an exhaustive TLC run over small constants"""

    def __init__(self, module, cfg=None, consts=None, thorough=None, quick=True, deadlock=False,
                 timeout=700, extra=(), workers=4, heap="4g"):
        self.__dict__.update(locals())


class Check:
    id = None
    level = "model_checking"
    models = []
    trace_module = None     # spec/<module>.tla; may be overridden per scenario by sc["spec"]
    watchdog = 15
    slots = 8
    repeats = 6             # copies of a rejected scenario that are run again
    assumptions = []
    batch = None
    chunk = 100000          # events per TLC run
    flags = ()
    tools = ()
    tworkers = 6

    # ---- to be provided ------------------------------------------------------
    def scenarios(self, rng, tier):
        return []

    def post(self, sc, trace, sdir):
        pass

    def project(self, sc, trace):
        """what of the trace goes to TLC"""
        return trace

    def nontrivial(self, sc):
        return True

    # ---- machinery -----------------------------------------------------------
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.t0 = time.time()
        self.work = runner.Work()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "models": []}
        self.viol = []
        self.known = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.id, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def run_models(self):
        for m in self.models:
            if self.tier == "quick" and not m.quick:
                continue
            consts = dict(m.consts or {})
            if self.tier == "thorough" and m.thorough:
                consts.update(m.thorough)
            t = time.time()
            r = tlc.run(m.module, m.cfg, consts=consts or None, workers=m.workers, timeout=m.timeout,
                        deadlock=m.deadlock, extra=m.extra, heap=m.heap)
            if not r.ok:
                raise tlc.TLCError("model %s (%s) failed rc=%d\n%s" % (m.module, m.cfg, r.rc, r.out[-5000:]))
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.cov["models"].append({"module": m.module, "config": m.cfg or m.module, "constants": consts,
                                       "distinct_states": r.distinct, "generated": r.generated,
                                       "seconds": round(time.time() - t, 1)})
            self.log("model", m.module, m.cfg or "", r.distinct, "states", "%.1fs" % (time.time() - t))

    def exe(self):
        return build.driver(self.flags, tools=self.tools)

    def execute(self, scens):
        return runner.run(self.exe(), scens, self.work, watchdog=self.watchdog, post=self.post,
                          slots=self.slots, batch=self.batch)

    def validate(self, scens, traces):
        """-> {sid: (pos, why)} of the traces TLC rejects"""
        bySpec = {}
        for sc in scens:
            if sc["sid"] in traces:
                bySpec.setdefault(sc.get("spec", self.trace_module), []).append(sc)
        rej = {}
        for spec, ss in bySpec.items():
            part, n = [], 0
            parts = [part]
            for sc in ss:
                k = len(traces[sc["sid"]]["ev"])
                if n + k > self.chunk and part:
                    part = []
                    parts.append(part)
                    n = 0
                part.append(sc)
                n += k
            for part in parts:
                rej.update(self.judge(spec, part, traces, [4]))
        return rej

    def judge(self, spec, part, traces, left):
        """one TLC run; a trace which the specification cannot even be evaluated on is no behaviour of it"""
        f = os.path.join(self.work.sub(), "traces.ndjson")
        with open(f, "w") as fh:
            for sc in part:
                fh.write(json.dumps(self.project(sc, traces[sc["sid"]])) + "\n")
        r = tlc.run(spec, env={"VP_TRACES": f}, workers=self.tworkers, timeout=800, heap="10g")
        os.unlink(f)
        rej = tlc.parse_rejects(r.out)
        acc = set(int(x) for x in tlc.re.findall(r'<<"ACCEPT",\s*(-?\d+)\s*>>', r.out))
        want = set(sc["sid"] for sc in part)
        for s in acc:
            rej.pop(s, None)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        miss = want - acc - set(rej)
        if r.ok and not miss:
            return rej
        if r.rc not in (75, 76, 150, 255) or "OutOfMemory" in r.out or "heap space" in r.out:
            raise tlc.TLCError("trace validation with %s failed rc=%d undecided=%s\n%s" %
                               (spec, r.rc, sorted(miss)[:5], _tail(r.out)))
        self.log("a trace the specification cannot be evaluated on is among", len(miss), "rc", r.rc)
        todo = [sc for sc in part if sc["sid"] in miss]
        if len(part) == 1:
            left[0] -= 1
            self.log(_tail(r.out, 6)[-500:])
            return {part[0]["sid"]: (0, "the observations are outside what the specification speaks of")}
        h = (len(todo) + 1) // 2
        for q in (todo[:h], todo[h:]):
            if q and left[0] > 0:
                rej.update(self.judge(spec, q, traces, left))
        return rej

    def match_known(self, sc, trace, why):
        for k in known_findings(self.id):
            if self.is_known(k, sc, trace, why):
                return k
        return None

    def is_known(self, k, sc, trace, why):
        tags = sc.get("tags", [])
        return k.get("tag") in tags and (not k.get("why") or why.startswith(k["why"]))

    def decide(self, scens, label=""):
        t = time.time()
        traces = self.execute(scens)
        self.log(label, "ran", len(traces), "of", len(scens), "scenarios %.1fs" % (time.time() - t))
        t = time.time()
        rej = self.validate(scens, traces)
        self.log(label, "validated %.1fs" % (time.time() - t), "rejected", len(rej))
        self.cov["traces_validated_against_impl"] += len(traces)
        for sc in scens[:2]:
            if len(self.cov["samples"]) < 4 and sc["sid"] in traces:
                self.cov["samples"].append(_clip({"scenario": sc}))
        byid = {s["sid"]: s for s in scens}
        if rej:
            whys = {}
            for x in sorted(rej):
                whys.setdefault(rej[x][1], []).append(x)
            self.log({k: (len(v), v[:5]) for k, v in whys.items()})
        # a rejection counts only if running the scenario again is rejected again
        order, whys = [], {}
        for x in sorted(rej, key=lambda x: ("did not complete: hang" in rej[x][1], x)):
            k = (rej[x][1], bool(byid[x].get("tags")))
            whys[k] = whys.get(k, 0) + 1
            if whys[k] <= 2:
                order.append(x)
        for x in order[:10]:
            if len(self.viol) >= 3 and not byid[x].get("tags"):
                continue
            if time.time() - self.t0 > 600 and self.viol:
                break
            hit = None
            for copies in (1, self.repeats):
                again = []
                for k in range(copies):
                    c = copy.deepcopy(byid[x])
                    c["sid"] = k
                    again.append(c)
                t2 = self.execute(again)
                r2 = self.validate(again, t2)
                if r2:
                    hit = min(r2)
                    break
            if hit is None:
                self.log("rejection of scenario", x, rej[x], "did not repeat; not reported")
                self.cov.setdefault("unrepeated", []).append([x, list(rej[x])])
                continue
            pos, why = r2[hit]
            k = self.match_known(byid[x], t2[hit], why)
            if k:
                self.known.append((k, byid[x], why))
            else:
                self.viol.append((byid[x], t2[hit], pos, why))

    def main(self):
        errs = []

        def models():
            try:
                self.run_models()
            except Exception as e:  # noqa
                errs.append(e)

        th = threading.Thread(target=models)
        th.start()
        try:
            rng = random.Random(self.seed * 1000003 + sum(map(ord, self.id)))
            self.conform(rng)
        finally:
            th.join()
        if errs and not self.viol:
            raise errs[0]

    def conform(self, rng):
        sc = self.scenarios(rng, self.tier)
        for i, s in enumerate(sc):
            s.setdefault("sid", i)
            s.setdefault("P", 1)
        self.nscen = len(sc)
        self.cov["nontrivial_scenarios"] = sum(1 for s in sc if self.nontrivial(s))
        self.decide(sc)

    def finish(self):
        rd = os.path.join(VERIF, "work", "replay")
        if self.viol:
            os.makedirs(rd, exist_ok=True)
        lines = []
        for n, (sc, tr, pos, why) in enumerate(self.viol):
            p = os.path.join(rd, "%s-%d.json" % (self.id, n))
            with open(p, "w") as f:
                json.dump({"property": self.id, "why": why, "at_event": pos, "scenario": sc, "trace": tr,
                           "replay": "cd /verif && ./check %s --replay %s" % (self.id, p)}, f)
            lines.append("VIOLATION property=%s replay=%s" % (self.id, p))
            print("  %s: event %d: %s" % (self.id, pos, why))
        for k, sc, why in self.known:
            pass
        seen = set()
        for k, sc, why in self.known:
            if k["tag"] not in seen:
                seen.add(k["tag"])
                print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        # every listed finding is announced, whether or not this run drew it
        for k in known_findings(self.id):
            if k["tag"] not in seen:
                seen.add(k["tag"])
                print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.work.close()
        for ln in lines[:5]:
            print(ln)
        self.log("done", "violations", len(self.viol), "known", len(self.known))
        return 1 if self.viol else 0


def _clip(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else {"clipped": s[:n]}


def _tail(out, n=60):
    return "\n".join(ln[:600] for ln in out.splitlines() if '"ACCEPT"' not in ln)[-6000:]
