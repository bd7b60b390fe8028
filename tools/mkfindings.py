"""Write known-findings.json from tools/findings.txt (status|property|commit or -|match or -|what fails)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for line in open(f"{V}/tools/findings.txt"):
    line = line.strip()
    if not line or line[0] == "#":
        continue
    status, prop, commit, match, what = [x.strip() for x in line.split("|", 4)]
    d = dict(status=status, property=prop, what=what)
    if status == "fixed":
        d.update(commit=commit, line=f"fixed: property={prop} {commit} {what}")
    else:
        d.update(match=match, line=f"KNOWN-FINDING: property={prop} {what}")
    out.append(d)
json.dump(dict(findings=out), open(f"{V}/known-findings.json", "w"), indent=1)
print(len(out))
