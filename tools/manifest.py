"""Writes MANIFEST.json: claims every property that has checks/cXX.py."""
import json, pathlib, re, importlib.util, ast
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NOTE = ("Every configuration / history / schedule inside the stated bounds is executed on the real laplax code and compared with an "
        "independent numpy or pure-Python reference. Trusted: JAX/XLA and numpy as the execution platform, the reference formulas, and that "
        "the bounded value/shape alphabets cover the code's case splits; nothing is claimed beyond the bounds. ")
checks, na = [], []
for p in props:
    f = V / "checks" / (p["id"].lower() + ".py")
    if not f.exists():
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    env = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("LEVEL", "RULE", "BOUNDS", "TECHNIQUE"):
            try: env[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError: pass
    b = env.get("BOUNDS", "")
    b = b.get("quick", "") if isinstance(b, dict) else b
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": env.get("TECHNIQUE", "stateless model checking of the implementation: exhaustive bounded enumeration of configurations/operation sequences against a reference model"),
        "level": env.get("LEVEL", "exploration"),
        "level_note": NOTE + "Rule: " + str(env.get("RULE", "")) + ". Quick bounds: " + str(b),
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import jax, numpy\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo; all /repo commits are fix: commits listed in known_findings.json."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", len(na), "not claimed")
