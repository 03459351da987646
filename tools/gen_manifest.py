"""Write MANIFEST.json from properties.jsonl and the harnesses in props/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B check.py"

NOTE = (
    "Bounded: every value of the symbolic inputs within the case bounds printed in the "
    "evidence file (lengths, number of steps, free bytes) is decided; nothing outside "
    "them. Trusted: the symbolic executor in symex/ (source-to-source instrumentation of "
    "the code in /repo, regenerated on every run), z3, the stand-ins listed as "
    "assumptions in the evidence, and the reference formulas in props/. Every "
    "violation is replayed on the unmodified code before it is reported."
)


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"{PY} {pid} --tier quick",
                "thorough_cmd": f"{PY} {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": "symbolic execution of the real Python source with z3 deciding "
                             "every branch and assertion (bounded)",
                "level": "model_checking",
                "level_note": NOTE,
            })
        else:
            na.append({"property": pid, "reason": "no harness yet"})
    out = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B check.py --help",
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
