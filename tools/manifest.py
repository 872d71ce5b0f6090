"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), "/repo/src"]
SCHED = ("stateless model checking of the real code: all registration orders and all orders of "
         "simultaneous events within a deviation bound, monitors at every step")
PROG = ("bounded exhaustive enumeration of programs on the real code, complete traces compared "
        "with an independent reference model")
BFS = "explicit-state search over operation histories of the real object against a model"
INP = ("exhaustive enumeration of a bounded input space on the real code against a brute-force "
       "reference model")
TECH = {"C01": BFS, "C02": BFS, "C14": INP, "C16": INP, "C17": INP, "C18": INP, "C20": INP,
        **{c: SCHED for c in ("C03", "C04", "C06", "C07", "C13", "C25")}}
ids = [json.loads(x)["id"] for x in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for i in ids:
    if not (ROOT / "mc/checks" / f"{i.lower()}.py").exists():
        na.append({"property": i, "reason": "its check is not finished"})
        continue
    m = importlib.import_module(f"mc.checks.{i.lower()}")
    checks.append({
        "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, PROG), "level": m.LEVEL,
        "level_note": "Exhaustive within the bounds below, on the real code; nothing is sampled. "
        "Trusted: Python, simpy and the monitors or reference model in /verif/mc. Bounds: "
        + m.RULE + ". Assumes: " + "; ".join(m.ASSUMPTIONS) + "."})
json.dump({"version": 1,
  "setup_cmd": "PYTHONPATH=/repo/src:. /opt/venv/bin/python -B -W ignore -c 'import mc.fleet, mc.ref, mc.run'",
  "hooks": {"guard": "none (the machinery needs no hooks in /repo)", "enable": "not needed", "source_commits": []},
  "checks": checks, "not_applicable": na}, open(ROOT / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
