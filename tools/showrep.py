"""print a replay file: showrep.py FILE"""
import json, sys
d = json.load(open(sys.argv[1]))
sc = d["scenario"]
print(d["why"], "at", d["at_event"], "P", sc["P"])
for j, o in enumerate(sc["ops"]):
    print(j, {a: (b if a != "traces" else len(b)) for a, b in o.items() if a not in ("text",)})
