"""Compile the library from /repo's working tree and the conformance driver.

Objects are cached under a directory named by a hash of everything that enters
the compilation, so an edited source is always recompiled."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
CPU = 8

BASE = ["-std=c++14", "-O1", "-g1", "-DNDEBUG", "-w",
        "-DEXSEISDAT_MPIIO_COLLECTIVES", "-DEXSEISDAT_VERIF_HOOKS",
        "-include", "cassert", "-include", "cmath", "-include", "cstddef",
        "-include", "cstring", "-include", "limits"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _tree(root, exts):
    r = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return sorted(r)


def _compile(cxx, flags, src, obj):
    if os.path.exists(obj):
        return
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stderr[-4000:]))
    os.rename(tmp, obj)


def library(extra=(), repo=None):
    """-> (list of objects, hash) of the library."""
    repo = repo or REPO
    flags = BASE + list(extra) + ["-I" + repo + "/include", "-I" + repo + "/src"]
    hdr = _sha(*[p[len(repo):].encode() + b"\0" + _read(p)
                 for p in _tree(repo + "/include", (".h", ".hh")) + _tree(repo + "/src", (".h", ".hh"))])
    objs, jobs = [], []
    for s in _tree(repo + "/src", (".cc", ".c")):
        k = _sha(hdr, " ".join(flags), s[len(repo):], _read(s))
        o = os.path.join(CACHE, "lib", k + ".o")
        objs.append(o)
        jobs.append((s, o))
    with ThreadPoolExecutor(CPU) as ex:
        list(ex.map(lambda j: _compile("mpicxx", flags, *j), jobs))
    return objs, _sha(hdr, *objs), hdr


TOOLS = {"makerep": ["sglobal.cc"], "concatenate": ["sglobal.cc"], "sort": [], "verifysort": ["sglobal.cc"],
         "minmax": ["sglobal.cc"], "filemake": ["sglobal.cc"], "traceanalysis": [], "assess": ["sglobal.cc"],
         "fourdbin": ["4dio.cc", "4dcore.cc", "sglobal.cc"], "radon": ["sglobal.cc"]}


def _toolobj(name, helpers, flags, hdr, repo):
    """the objects of one tool as one object that defines vp_tool_<name> only"""
    u = os.path.join(repo, "util")
    uh = _sha(*[_read(p) for p in _tree(u, (".h", ".hh"))])
    fl = flags + ["-Dmain=vp_tool_" + name, "-I" + u]
    objs = []
    for s in [name + ".cc"] + helpers:
        s = os.path.join(u, s)
        o = os.path.join(CACHE, "util", _sha(hdr, uh, " ".join(fl), _read(s)) + ".o")
        _compile("mpicxx", fl, s, o)
        objs.append(o)
    res = os.path.join(CACHE, "util", name + "-" + _sha(*objs) + ".o")
    if not os.path.exists(res):
        tmp = res + ".%d.tmp" % os.getpid()

        def sh(*c):
            p = subprocess.run(c, capture_output=True, text=True)
            if p.returncode:
                raise BuildError("%s failed:\n%s" % (c[0], p.stderr[-2000:]))
            return p.stdout
        sh("ld", "-r", "-o", tmp, *objs)
        loc = [ln.split()[-1] for ln in sh("nm", "--defined-only", tmp).splitlines()
               if len(ln.split()) == 3 and ln.split()[1] in "TBDRS" and "vp_tool_" not in ln]
        with open(tmp + ".sym", "w") as f:
            f.write("\n".join(loc) + "\n")
        sh("objcopy", "--localize-symbols=" + tmp + ".sym", tmp)
        os.unlink(tmp + ".sym")
        os.rename(tmp, res)
    return res


def driver(extra=(), repo=None, tools=()):
    """-> path of the driver linked against the library compiled now."""
    repo = repo or REPO
    d = os.path.join(VERIF, "driver")
    flags = BASE + list(extra) + ["-O0", "-I" + repo + "/include", "-I" + repo + "/src", "-I" + d]
    dh = _sha(*[_read(p) for p in _tree(d, (".hh", ".h"))])
    hdr = _sha(*[p[len(repo):].encode() + b"\0" + _read(p)
                 for p in _tree(repo + "/include", (".h", ".hh")) + _tree(repo + "/src", (".h", ".hh"))])
    jobs, objs = [], []
    for s in _tree(d, (".cc",)):
        uses = hdr if b"ExSeisDat" in _read(s) or True else ""
        k = _sha(uses, dh, " ".join(flags), _read(s))
        o = os.path.join(CACHE, "drv", k + ".o")
        objs.append(o)
        jobs.append(("mpicxx", flags, s, o))
    lflags = BASE + list(extra) + ["-I" + repo + "/include", "-I" + repo + "/src"]
    lobjs = []
    for s in _tree(repo + "/src", (".cc", ".c")):
        k = _sha(hdr, " ".join(lflags), s[len(repo):], _read(s))
        o = os.path.join(CACHE, "lib", k + ".o")
        lobjs.append(o)
        jobs.append(("mpicxx", lflags, s, o))
    with ThreadPoolExecutor(CPU) as ex:
        tl = [ex.submit(_toolobj, t, TOOLS[t], lflags, hdr, repo) for t in tools]
        list(ex.map(lambda j: _compile(*j), jobs))
        tobjs = [t.result() for t in tl]
    exe = os.path.join(CACHE, "bin", "drv-" + _sha(*(objs + lobjs + tobjs)))
    _link(exe, objs + lobjs + tobjs)
    return exe


def program(src, extra=()):
    """-> path of src linked against the library compiled now"""
    lobjs, _, hdr = library(extra)
    flags = BASE + list(extra) + ["-I" + REPO + "/include", "-I" + REPO + "/src"]
    o = os.path.join(CACHE, "drv", _sha(hdr, " ".join(flags), _read(src)) + ".o")
    _compile("mpicxx", flags, src, o)
    exe = os.path.join(CACHE, "bin", "prg-" + _sha(o, *lobjs))
    _link(exe, [o] + lobjs)
    return exe


def _link(exe, objs, libs=("-lfftw3f", "-lpthread")):
    if os.path.exists(exe):
        return
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    p = subprocess.run(["mpicxx"] + objs + list(libs) + ["-o", tmp], capture_output=True, text=True)
    if p.returncode:
        raise BuildError("linking failed:\n" + p.stderr[-4000:])
    os.rename(tmp, exe)


if __name__ == "__main__":
    import time
    t = time.time()
    print(driver(), time.time() - t)
