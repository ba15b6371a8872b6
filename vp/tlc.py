"""Run TLC."""
import os, re, subprocess, json, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.rejects = []
        for ln in re.findall(r'<<"REJECT".*?>>', out, re.S):
            self.rejects.append(ln)
        self.violated = re.findall(r"(?:Invariant|property|Temporal properties?) ?(\S*) (?:is|were|was) violated", out)
        self.ok = rc == 0
        self.error = None
        if rc not in (0, 10, 11, 12, 13):
            self.error = "\n".join(out.splitlines()[-40:])


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="6g", deadlock=False, consts=None):
    """module: name of spec/<module>.tla; cfg: name of the config (default <module>.cfg)"""
    meta = tempfile.mkdtemp(prefix="tlc.", dir="/tmp")
    e = dict(os.environ)
    e.update(env or {})
    e["TMPDIR"] = meta
    cfgp = os.path.join(SPEC, (cfg or module) + ".cfg")
    if consts:
        txt = open(cfgp).read()
        for k, v in consts.items():
            txt, n = re.subn(r"(?m)^(\s*)%s\s*=.*$" % re.escape(k), r"\g<1>%s = %s" % (k, v), txt)
            if n == 0:
                raise TLCError("no constant %s in %s" % (k, cfgp))
        cfgp = os.path.join(meta, module + ".cfg")
        open(cfgp, "w").write(txt)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfgp] + ([] if deadlock else ["-deadlock"]) + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Result(p.returncode, p.stdout)


def parse_rejects(out):
    """-> {sid: (position, reason)} from PrintT(<<"REJECT", sid, pos, why>>)"""
    r = {}
    for m in re.finditer(r'<<\s*"REJECT",\s*(-?\d+),\s*(\d+),\s*"([^"]*)"', out):
        r.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3)))
    return r
