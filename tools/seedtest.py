#!/usr/bin/env python3
"""tools/seedtest.py ID... : in a private overlay of /repo apply seeded/ID/patch.diff, build, run
the tests, run the demonstration and the property's check.  Prints one line per seed."""
import json, os, subprocess, sys, shutil, tempfile
V = "/verif"
SH = r'''
set -e
mount -t overlay overlay -o userxattr,lowerdir=/repo,upperdir=$OV/u,workdir=$OV/w /repo
cd /repo
[ "$PATCH" = 1 ] && git apply $SEED/patch.diff
if [ "$PATCH" = 1 ]; then
  bash /opt/vp/build.sh > $OV/build.log 2>&1 || { echo BUILD-FAILED; tail -5 $OV/build.log; exit 1; }
  if [ "$NOTEST" != 1 ]; then
  bash /opt/vp/test.sh $OV/o.json > $OV/test.log 2>&1 || true
  python3 - $OV/o.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))
st=b.get("stable") or b.get("passed") or b
st=set(st) if not isinstance(st,dict) else set(st.get("tests",st))
miss=st-set(o["passed"])
print("tests: stable failing", len(miss), sorted(miss)[:6])
P
  fi
fi
cp -r $SEED $OV/demo; rm -f $OV/demo/patch.diff $OV/demo/meta.json
set +e
cd /repo; timeout 300 bash $OV/demo/demo.sh > $OV/demo.log 2>&1; echo "demo rc=$?"
tail -3 $OV/demo.log
if [ "$PATCH" = 1 -a "$NOCHECK" != 1 ]; then
  cd /verif; for p in $PROPS; do VERIF_SEED=1 VERIF_TIER=quick ./check $p > $OV/chk.log 2>&1; echo "check $p rc=$?"; grep -h "VIOLATION\|event\|Error" $OV/chk.log | head -4; done
fi
'''
for a in sys.argv[1:]:
    sd = os.path.join(V, "seeded", a)
    meta = json.load(open(sd + "/meta.json"))
    for patch in ("0", "1"):
        ov = tempfile.mkdtemp(prefix="sdt.", dir="/tmp")
        os.makedirs(ov + "/u"); os.makedirs(ov + "/w")
        e = dict(os.environ, OV=ov, SEED=sd, PATCH=patch, PROPS=os.environ.get("PROPS", meta["property"]))
        p = subprocess.run(["unshare", "-rm", "bash", "-c", SH], env=e, capture_output=True, text=True)
        print("==", a, "patched" if patch == "1" else "clean"); print(p.stdout.strip(), p.stderr.strip()[-600:])
        sys.stdout.flush()
        subprocess.run(["chmod", "-R", "u+rwx", ov])
        shutil.rmtree(ov, ignore_errors=True)
