"""Writes MANIFEST.json from the checks."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = "/opt/venv/bin/python"
NOTE = {
 "exploration": "Seeded search over workloads, schedules and fault sequences; it samples, it does not prove. Trusted: the simulator's seams (os/io/pool/clock/random interposition), the generators and the reference model in /verif/sim."
}
checks = []
for n in range(1, 60):
    f = os.path.join(V, "checks", f"c{n:02d}.py")
    if not os.path.exists(f):
        continue
    sp = importlib.util.spec_from_file_location(f"c{n:02d}", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    c = getattr(m, f"C{n:02d}")
    checks.append({"property": c.id, "quick_cmd": f"{PY} checks/c{n:02d}.py --tier quick", "thorough_cmd": f"{PY} checks/c{n:02d}.py --tier thorough",
                   "technique": c.technique, "level": "exploration",
                   "level_note": NOTE["exploration"] + " Assumes: " + ("; ".join(c.assumptions) or "nothing further") + "."})
NA = {
 "C30": "A pure function of its arguments: no concurrency, clock, I/O, randomness or crash point for a schedule or fault to act on; a simulator would degrade to input sampling.",
 "C31": "Pure numerical functions of their arguments; nothing to schedule or to fault.",
 "C32": "Pure numerical functions of their arguments; nothing to schedule or to fault.",
 "C33": "Pure transformations of an in-memory structure; nothing to schedule or to fault.",
}
claimed = {c["property"] for c in checks}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert claimed <= set(props), claimed - set(props)
na = []
for p in props:
    if p not in claimed:
        na.append({"property": p, "reason": NA[p]})
m = {"version": 1, "setup_cmd": f"{PY} -c \"import matersdk, numpy, pandas, torch, h5py, pymatgen\" && g++ --version",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: all seams lie at the os/io/multiprocessing/random boundary (see DESIGN.md). Commits in /repo are repairs ('fix:') only, listed in known_findings.jsonl."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
