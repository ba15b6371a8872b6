"""Run scenarios on the driver and merge the per-process logs into traces."""
import json, os, shutil, subprocess, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_osc="sm,pt2pt",
           OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_mpi_yield_when_idle="1",
           OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_plm_rsh_agent="sh", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_btl_base_warn_component_unused="0", OMPI_MCA_mpi_show_handle_leaks="0",
           PRTE_MCA_rmaps_default_mapping_policy=":oversubscribe", LC_ALL="C")


def mpirun(np, cmd, cwd=None, timeout=600, env=None):
    e = dict(os.environ)
    e.update(ENV)
    sess = tempfile.mkdtemp(prefix="ompi.", dir="/tmp")
    e["TMPDIR"] = sess
    e["OMPI_MCA_orte_tmpdir_base"] = sess
    e.update(env or {})
    c = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np)] + cmd
    try:
        p = subprocess.run(c, cwd=cwd, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        subprocess.run(["pkill", "-9", "-f", cmd[0] + " " + cmd[1]], check=False)
        return -1, "timeout\n" + str(ex.stdout or "")[-2000:]
    finally:
        shutil.rmtree(sess, ignore_errors=True)


class Work:
    """scratch directory, removed at the end"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp.", dir="/tmp")
        self.n = 0
        self.lock = threading.Lock()

    def sub(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, "r%d" % self.n)
        os.makedirs(d)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def _lines(path):
    out = []
    try:
        with open(path, errors="replace") as f:
            for ln in f:
                try:
                    out.append(json.loads(ln))
                except ValueError:
                    pass
    except OSError:
        pass
    return out


def members(sc, g):
    """processes of group g, in the order of their ranks there"""
    m = [r for r in range(sc["P"]) if sc["groups"][r] == g]
    return m[::-1] if sc.get("rev") else m


def _merge(scens, logs, P, scratch, post):
    """traces (by sid) of the scenarios that were started, and the sid at which
    the job died, if it did"""
    ent, ends, begun, aborts = {}, {}, {}, {}
    for r in range(P):
        for j in logs[r]:
            s = j["s"]
            if "b" in j:
                begun.setdefault(s, set()).add(r)
            elif "abort" in j:
                aborts.setdefault(s, []).append(j)
            elif "e" in j:
                ends.setdefault(s, {})[r] = j
            else:
                ent.setdefault(s, {}).setdefault(j["i"], {})[r] = j["v"]
    traces, died = {}, None
    for sc in scens:
        s = sc["sid"]
        if s not in begun:
            continue
        # (a process may die of what the scenario did only after its end)
        done = len(ends.get(s, {})) == P and not any(a["abort"] in ("crash", "exception") for a in aborts.get(s, []))
        ev = []
        if "groups" in sc and "gops" in sc:
            gev = []
            for g, ol in enumerate(sc["gops"]):
                mem = members(sc, g)
                lst = []
                for i, op in enumerate(ol):
                    vs = [ent.get(s, {}).get(i, {}).get(r) for r in mem]
                    if any(v is None for v in vs):
                        break
                    e = dict(op)
                    e["v"] = vs
                    lst.append(e)
                gev.append(lst)
            traces[s] = {"sid": s, "P": P, "groups": sc["groups"], "gev": gev, "ev": []}
        else:
            for i, op in enumerate(sc["ops"]):
                vs = [ent.get(s, {}).get(i, {}).get(r) for r in range(P)]
                if any(v is None for v in vs):
                    break
                e = dict(op)
                e["v"] = vs
                ev.append(e)
            traces[s] = {"sid": s, "P": P, "ev": ev}
        if done:
            en = [ends[s][r] for r in range(P)]
            traces[s]["end"] = [{"live": x["live"], "lerr": x["lerr"], "left": x["left"]} for x in en]
            if sc.get("trace"):
                traces[s]["endcalls"] = [x.get("calls", []) for x in en]
            traces[s]["ev"].append({"op": "END", "live": [x["live"] for x in en],
                                    "lerr": [x["lerr"] for x in en],
                                    "left": [x["left"] for x in en]})
            if post:
                post(sc, traces[s], os.path.join(scratch, "s%d" % s))
        else:
            ab = aborts.get(s) or []
            # the most telling report first
            ab.sort(key=lambda a: {"mismatch": 0, "crash": 1, "exception": 1, "exit": 2}.get(a["abort"], 3))
            a = ab[0] if ab else {"abort": "died", "info": "process ended", "at": "?"}
            traces[s]["ev"].append({"op": "ABORT", "kind": a["abort"], "info": a.get("info", ""),
                                    "at": a.get("at", "")})
            traces[s]["abort"] = a
            died = s
        shutil.rmtree(os.path.join(scratch, "s%d" % s), ignore_errors=True)
        if died is not None:
            break
    return traces, died


def _run_one(exe, P, scens, work, watchdog, env, post):
    out = {}
    todo = list(scens)
    deaths = 0
    while todo:
        d = work.sub()
        sf = os.path.join(d, "scen")
        with open(sf, "w") as f:
            for s in todo:
                f.write(json.dumps(s) + "\n")
        rc, txt = mpirun(P, [exe, sf, os.path.join(d, "log"), d, str(watchdog)], cwd=d,
                         timeout=watchdog * 3 + 60 + 2 * len(todo), env=env)
        logs = [_lines(os.path.join(d, "log.%d" % r)) for r in range(P)]
        tr, died = _merge(todo, logs, P, d, post)
        out.update(tr)
        if died is None and rc != 0 and len(tr) == len(todo):
            # everything ran to its end but the job did not finish cleanly
            out[todo[-1]["sid"]]["exit"] = (rc, txt[-1500:])
            shutil.rmtree(d, ignore_errors=True)
            break
        shutil.rmtree(d, ignore_errors=True)
        if died is None:
            if tr and len(tr) < len(todo) and rc != 0:
                # it died between two scenarios without a word
                died = [s["sid"] for s in todo if s["sid"] in tr][-1]
                e = out[died]["ev"]
                if e and e[-1]["op"] == "END":
                    e.pop()
                e.append({"op": "ABORT", "kind": "died", "info": "process ended", "at": "after the scenario"})
                out[died]["abort"] = {"abort": "died", "info": "process ended", "at": "after the scenario"}
            elif len(tr) < len(todo):
                raise RuntimeError("driver did not start: rc=%s\n%s" % (rc, txt[-3000:]))
            else:
                break
        if any(a.get("abort") == "driver" for a in [out[died].get("abort", {})]):
            raise RuntimeError("driver error: %s" % out[died]["abort"])
        out[died]["out"] = txt[-1500:]
        deaths += 1
        k = [s["sid"] for s in todo].index(died)
        todo = todo[k + 1:]
        if deaths >= 6:  # enough evidence; the rest is not run
            break
    return out


def run(exe, scens, work, watchdog=40, env=None, post=None, slots=8, batch=None):
    """scens: list of {"sid","P","ops",...} -> {sid: trace}"""
    byP = {}
    for s in scens:
        byP.setdefault(s["P"], []).append(s)
    jobs = []
    for P, ss in sorted(byP.items(), reverse=True):
        n = max(1, min(len(ss) // 8, slots // P if P > 1 else 4))
        if batch:
            n = max(1, -(-len(ss) // batch))
        for k in range(n):
            part = ss[k::n]
            if part:
                jobs.append((P, part))
    # keep the number of processes running at once below the number of cores
    res, errs = {}, []
    cond = threading.Condition()
    free = [slots]

    def work1(P, part):
        need = min(P, slots)
        with cond:
            while free[0] < need:
                cond.wait()
            free[0] -= need
        try:
            r = _run_one(exe, P, part, work, watchdog, env, post)
            with cond:
                res.update(r)
        except Exception as e:  # noqa
            errs.append(e)
        finally:
            with cond:
                free[0] += need
                cond.notify_all()

    with ThreadPoolExecutor(max(1, len(jobs))) as ex:
        for P, part in jobs:
            ex.submit(work1, P, part)
    if errs:
        raise errs[0]
    return res
