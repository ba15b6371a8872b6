"""Write seeded/<id>/ from replacements in /repo's sources and a demonstration."""
import difflib, json, os
V, R = "/verif", "/repo"
SH = '''#!/bin/bash
# exit 0: the library behaves as documented; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 98
trap 'rm -rf "$T"' EXIT
inc="-include cassert -include cmath -include cstddef -include cstring -include limits"
mpicxx -std=c++14 -O1 -w $inc -I/repo/include "$here/demo.cc" /repo/_build/libexseisdat.a %s -o "$T/demo" || exit 97
cd "$T" || exit 98
timeout -k 5 %d mpirun --oversubscribe -np %d ./demo
'''
def seed(id, prop, edits, demo, P=1, needs="", breaks="", sh=None, files=None, timeout=60):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    out = ""
    by = {}
    for f, old, new in edits:
        by.setdefault(f, []).append((old, new))
    for f, ch in by.items():
        a = open(os.path.join(R, f)).read()
        b = a
        for old, new in ch:
            assert b.count(old) == 1, (id, f, b.count(old), old)
            b = b.replace(old, new)
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    if demo:
        open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or SH % ("-lfftw3f -lfftw3", timeout, P))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
