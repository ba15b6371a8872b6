"""Do the checks notice if a fix is undone?  reverttest.py [COMMIT...]
Uses known_findings.jsonl; reverts in /repo's working tree and restores it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for ln in open(V + "/known_findings.jsonl"):
    j = json.loads(ln)
    if j["status"] != "fixed" or (want and j["commit"] not in want):
        continue
    c = j["commit"]
    d = subprocess.run(["git", "-C", "/repo", "diff", c, c + "~1"], capture_output=True, text=True).stdout
    r = subprocess.run(["git", "-C", "/repo", "apply", "--3way", "-"], input=d, text=True, capture_output=True)
    try:
        if r.returncode:
            print(c, j["property"], "does not revert cleanly")
            continue
        subprocess.run(["git", "-C", "/repo", "reset", "-q"])
        r = subprocess.run([V + "/check", j["property"]], capture_output=True, text=True, cwd=V)
        print(c, j["property"], "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, j["what"][:100], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "reset", "-q", "--hard", "HEAD"])
