"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -W ignore mc/run.py"


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


TECH = {
    "model_checking": "explicit-state / stateless model checking of the real "
                      "code against a reference model: ",
    "exploration": "bounded exhaustive enumeration of executions of the real "
                   "code against a reference: ",
}


def main():
    checks, na = [], []
    for line in open(os.path.join(V, "properties.jsonl")):
        pid = json.loads(line)["id"]
        f = os.path.join(V, "mc", "props", pid.lower() + ".py")
        if not os.path.exists(f):
            na.append({"property": pid,
                       "reason": "no check has been built for it yet"})
            continue
        c = consts(f)
        checks.append({
            "property": pid,
            "quick_cmd": "%s %s --tier quick" % (PY, pid),
            "thorough_cmd": "%s %s --tier thorough" % (PY, pid),
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH[c["LEVEL"]] + c["TECH"] if "TECH" in c
            else TECH[c["LEVEL"]] + "all cases within the stated bounds",
            "level": c["LEVEL"],
            "level_note": "Exhaustive within: %s. What is enumerated: %s. "
                          "Trusted: %s" % (
                              c["BOUNDS"]["quick"], c["RULE"],
                              "; ".join(c.get("ASSUMES", [])) or
                              "the reference in the check itself"),
        })
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -W ignore mc/setup_check.py",
         "checks": checks, "not_applicable": na,
         "notes": "Thorough runs lift the caps of the quick ones; see "
                  "DESIGN.md. No hooks were needed in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
