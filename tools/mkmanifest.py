"""Write MANIFEST.json: every property with a harness/p_<ID>.py is claimed, the others are not."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
TECH = {}
for line in open(f"{V}/tools/techniques.txt"):
    if line.strip():
        k, spec, note = line.rstrip("\n").split("|", 2)
        TECH[k.strip()] = (spec.strip(), note.strip())
NA = {"X01": "Floating-point accuracy of continuous line-shape models: there is no state-transition content, and TLA+ has no reals TLC can evaluate; a specification could only restate the numerical formulas, which would be numerical testing, not model checking."}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/p_{i}.py") and i in TECH:
        spec, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique=f"TLA+ specification ({spec}) model-checked with TLC, bound to the code by conformance replay", level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Specification not built yet in this framework.")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check copies /repo's working tree, builds its extensions from the sources there and drives the public interface."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
