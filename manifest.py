"""Writes MANIFEST.json from the modules of the properties"""
import ast
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
TODO = "its check is not built yet"


def attr(path, name):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == name:
            return ast.literal_eval(node.value)
    return None


checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(here, "mc", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=pid, reason=TODO))
        continue
    cmd = "bash run.sh %s --tier " % pid
    b = attr(path, "BOUNDS")
    checks.append(
        dict(
            property=pid,
            quick_cmd=cmd + "quick",
            thorough_cmd=cmd + "thorough",
            technique=attr(path, "TECHNIQUE") or "explicit-state model checking of the implementation (exhaustive bounded enumeration)",
            level=attr(path, "LEVEL"),
            level_note="Every case within the bounds is executed on the real code and compared with an independent oracle. Bounds (quick): %s. Assumes: %s."
            % (b["quick"], "; ".join(attr(path, "ASSUMPTIONS") or ["nothing further"])),
        )
    )
doc = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
