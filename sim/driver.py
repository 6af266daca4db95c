"""Seeded search: many simulated runs, minimisation, replay files, evidence."""
import argparse
import collections
import copy
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
_now = time.perf_counter

from . import core                                    # noqa: E402
from .core import HarnessError, Sim, SimCrash, SimHang, Violation   # noqa: E402


class Check:
    id = "C00"
    technique = ""
    real = []          # components that ran real code
    stub = []          # components that ran a stub
    rule = ""
    assumptions = []
    quick = (40, 6)        # workloads, plans per workload
    thorough = (1500, 12)
    workers = 8
    alloc = 0                  # share of the runs with a failing allocation / an interrupt at a numbered call
    alloc_phases = ""          # pattern of the calls it may hit

    def setup(self):
        """Once per worker process, after the seams are installed."""

    @staticmethod
    def prepare(folder):
        """Once per search, before the workers start: build what they need from /repo."""

    def gen(self, rng, j):
        raise NotImplementedError

    def plan(self, rng, case, info, k):
        raise NotImplementedError

    def run(self, sim, case):
        raise NotImplementedError

    def shrink(self, case):
        return []

    def nontrivial(self, case, info):
        return True


def scratch_base():
    for d in ("/dev/shm", None):
        try:
            return tempfile.mkdtemp(prefix="msdkverif.", dir=d)
        except OSError:
            continue
    raise HarnessError("no scratch space")


class _Alarm(Exception):
    pass


def _on_alarm(*_):
    raise SimHang("no progress within the time bound of one run")


class Phases:
    def __init__(self, rx):
        self.rx = rx

    def __contains__(self, name):
        return name is not None and bool(re.fullmatch(self.rx, name))


def plan_alloc(check, r, case, info):
    """Sometimes one allocation of the code under test fails (or the user interrupts it)."""
    if not check.alloc or r.random() >= check.alloc:
        return case
    ph = [(n, p) for n, p in sorted(info["phases"].items()) if n in Phases(check.alloc_phases) and (p.get("calls") or p.get("tcalls"))]
    if not ph:
        return case
    n, p = r.choice(ph)
    t = {k: v for k, v in p["tcalls"].items() if v}
    if t and r.random() < .5:
        k = r.choice(sorted(t))
        case["alloc"] = {"phase": n, "task": int(k), "n": r.randint(1, t[k]), "exc": "MemoryError"}
    elif p["calls"]:
        case["alloc"] = {"phase": n, "n": r.randint(1, p["calls"]), "exc": r.choice(["MemoryError", "MemoryError", "KeyboardInterrupt"])}
    return case


def execute(check, case, wall=180, probe=False):
    """One simulated run.  Returns info; raises Violation."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(wall)
    try:
        with Sim(case.get("seed", 0), case.get("opts")) as sim:
            viol = None
            extra = {}
            sim.alloc = case.get("alloc")
            if probe and check.alloc:
                sim.count_calls = Phases(check.alloc_phases)
            try:
                import numpy as np
                st = np.random.get_state()
                np.random.seed(int(hashlib.sha256(str(case.get("seed")).encode()).hexdigest()[:8], 16))
                random.seed(str(case.get("seed")))
                try:
                    extra = check.run(sim, case) or {}
                finally:
                    np.random.set_state(st)
            except Violation as v:
                viol = v
            except (HarnessError, KeyboardInterrupt):
                raise
            except SimHang as e:
                viol = Violation("hang", str(e))
            except SimCrash:
                raise HarnessError("crash escaped")
            except Exception as e:
                viol = Violation("unexpected-" + type(e).__name__,
                                 f"{e} | " + " / ".join(traceback.format_exc().strip().splitlines()[-5:]))
            info = {
                "digest": sim.digest(), "log": list(sim.log), "injected": dict(sim.injected),
                "ops": dict(sim.opcount), "sim_ns": sim.sim_ns, "phases": sim.phases,
                "interleave": sim.interleave.hexdigest()[:16], "root": sim.root, "violation": None,
            }
            info.update(extra)
            if viol is not None:
                info["violation"] = (viol.kind, viol.msg.replace(sim.root, "<root>"))
            return info
    finally:
        signal.alarm(0)


def minimise(check, case, kind, budget):
    t0 = _now()
    best = case
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        try:
            i = execute(check, c, wall=60)
        except HarnessError:
            return None
        except Exception:
            return None
        return i if i["violation"] and i["violation"][0] == kind else None
    progress = True
    while progress and _now() - t0 < budget:
        progress = False
        cands = []
        if best.get("alloc"):
            cands.append({k: v for k, v in best.items() if k != "alloc"})
        fl = best.get("faults")
        if isinstance(fl, list):
            for i in range(len(fl)):
                c = copy.deepcopy(best)
                del c["faults"][i]
                cands.append(c)
        try:
            import itertools
            cands = itertools.chain(cands, check.shrink(copy.deepcopy(best)))
            for c in cands:
                if _now() - t0 > budget:
                    break
                if fails(c):
                    best, progress = c, True
                    break
        except Exception:
            break
    return best, tried


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in core.REAL["open"](p):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def is_known(known, kind, msg):
    for e in known:
        if e["kind"] == kind and e.get("match", "") in msg:
            return e
    return None


def worker(check, tier, seed, wi, nw, outp, deadline):
    check.setup()
    import gc
    gc.collect()
    gc.freeze()                     # module objects need no scanning in every run
    nload, nplan = check.quick if tier == "quick" else check.thorough
    st = collections.Counter()
    inj, ops = collections.Counter(), collections.Counter()
    cases_seen, inter, states = set(), set(), set()
    sim_ns, samples, viols, known_hits = 0, [], [], {}
    known = load_known(check.id)
    nondet = []
    t0 = _now()
    hs = int(os.environ.get("PYTHONHASHSEED", "0") or 0)

    def account(case, info):
        nonlocal sim_ns
        st["runs"] += 1
        inj.update(info["injected"])
        ops.update(info["ops"])
        sim_ns += info["sim_ns"]
        inter.add(info["interleave"] if info["interleave"][:8] != "e3b0c442" else info["digest"])
        if check.nontrivial(case, info):
            st["nontrivial"] += 1
            cases_seen.add(case["seed"].split("+")[0] + ":" + info["digest"])
        for s in info.get("states", ()):
            states.add(s)
        if len(samples) < 2 and info["injected"]:
            samples.append({"case": case, "log_head": info["log"][:12]})

    def handle(case, info, took=0):
        """True if the search of this worker should stop."""
        v = info["violation"]
        if v is None:
            return False
        k = is_known(known, *v)
        if k is not None:
            known_hits[k["what"]] = known_hits.get(k["what"], 0) + 1
            return False
        budget = 40 if tier == "quick" else 120
        if took > 30:                   # it only ended by the time bound: once is enough
            small, tried, i2, i3 = case, 0, info, info
        else:
            small, tried = minimise(check, case, v[0], budget)
            try:
                i2 = execute(check, small)
                i3 = execute(check, small)
            except HarnessError:
                small, i2, i3 = case, info, info
        if not i2["violation"]:
            small, i2, i3 = case, info, info
        viols.append({"case": small, "violation": i2["violation"], "digest": i2["digest"],
                      "log": i2["log"][-80:], "exact": i2["digest"] == i3["digest"],
                      "orig_case_seed": case.get("seed"), "shrink_runs": tried, "hashseed": hs})
        return True

    stop = False
    for j in range(wi, nload, nw):
        if _now() - t0 > deadline or stop:
            break
        rng = random.Random(f"{seed}/{check.id}/{j}")
        case = check.gen(rng, j)
        case.setdefault("seed", f"{seed}/{check.id}/{j}")
        case["hashseed"] = hs
        case = json.loads(json.dumps(case))
        t1 = _now()
        info = execute(check, case, probe=True)
        t1 = _now() - t1
        st["workloads"] += 1
        if st["workloads"] in (1, 9):           # lazily imported modules as well
            gc.freeze()
        account(case, info)
        if handle(case, info, t1):
            break
        if st["workloads"] % 10 == 1:
            again = execute(check, case)
            st["replayed"] += 1
            if again["digest"] != info["digest"]:
                nondet.append(case["seed"])
        for k in range(nplan):
            if _now() - t0 > deadline:
                break
            c2 = check.plan(rng, copy.deepcopy(case), info, k)
            if c2 is None:
                break
            c2 = plan_alloc(check, rng, c2, info)
            c2 = json.loads(json.dumps(c2))
            t1 = _now()
            i2 = execute(check, c2)
            t1 = _now() - t1
            account(c2, i2)
            if handle(c2, i2, t1):
                stop = True
                break
            if st["runs"] % 40 == 7:
                again = execute(check, c2)
                st["replayed"] += 1
                if again["digest"] != i2["digest"]:
                    nondet.append(c2["seed"])
    res = {"st": dict(st), "inj": dict(inj), "ops": dict(ops), "cases": sorted(cases_seen),
           "inter": sorted(inter), "states": sorted(states), "sim_ns": sim_ns, "samples": samples,
           "viols": viols, "known": known_hits, "nondet": nondet, "wall": _now() - t0}
    with core.REAL["open"](outp, "w") as f:
        json.dump(res, f)


def env_for(seed, wi, scratch):
    e = dict(os.environ)
    hs = int(hashlib.sha256(f"{seed}/hash/{wi}".encode()).hexdigest()[:8], 16) % 4294967295
    e.update({"PYTHONHASHSEED": str(hs), "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
              "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "VERIF_SCRATCH": scratch,
              "PYTHONPATH": VERIF + os.pathsep + os.environ.get("VERIF_REPO", "/repo"), "MPLBACKEND": "Agg", "TZ": "UTC",
              "HOME": scratch, "PYTHONWARNINGS": "ignore"})
    return e


def main(check_cls):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--nw", type=int)
    ap.add_argument("--out")
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--loads", type=int)
    ap.add_argument("--plans", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = check_cls()
    if a.loads:
        check.quick = check.thorough = (a.loads, a.plans if a.plans is not None else check.quick[1])
    if a.worker is not None:
        from . import fs
        fs.install()
        try:
            worker(check, a.tier, seed, a.worker, a.nw, a.out, a.deadline)
        except HarnessError as e:
            print("HARNESS", e, file=sys.stderr)
            traceback.print_exc()
            sys.exit(3)
        sys.stdout.flush()
        os._exit(0)
    if a.replay:
        sys.exit(replay(check, a.replay, seed))
    sys.exit(search(check, a, seed))


def replay(check, path, seed):
    rep = json.load(open(path))
    hs = str(rep["hashseed"])
    if os.environ.get("PYTHONHASHSEED") != hs or os.environ.get("VERIF_SCRATCH") is None:
        sc = scratch_base()
        try:
            check.prepare(sc)
            e = env_for(seed, 0, sc)
            e["PYTHONHASHSEED"] = hs
            e["VERIF_PREP"] = sc
            return subprocess.run([PY] + sys.argv, env=e).returncode
        finally:
            shutil.rmtree(sc, ignore_errors=True)
    from . import fs
    fs.install()
    check.setup()
    info = execute(check, rep["case"])
    for l in info["log"]:
        print(l)
    v = info["violation"]
    print("recorded :", rep["violation"], rep["digest"])
    print("replayed :", v, info["digest"])
    if v and v[0] == rep["violation"][0]:
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    return 0


def search(check, a, seed):
    t0 = _now()
    sc = scratch_base()
    nw = min(check.workers, os.cpu_count() or 1)
    deadline = 420 if a.tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3000"))
    procs, outs = [], []
    try:
        check.prepare(sc)
        os.environ["VERIF_PREP"] = sc
        for i in range(nw):
            out = os.path.join(sc, f"out{i}.json")
            d = os.path.join(sc, f"w{i}")
            os.mkdir(d)
            cmd = [PY, "-X", "faulthandler", os.path.abspath(sys.argv[0]), "--tier", a.tier, "--worker", str(i), "--nw", str(nw), "--out", out,
                   "--deadline", str(deadline)]
            if a.loads:
                cmd += ["--loads", str(a.loads)] + (["--plans", str(a.plans)] if a.plans is not None else [])
            procs.append(subprocess.Popen(cmd, env=env_for(seed, i, d), cwd=d, stdout=subprocess.DEVNULL,
                                          stderr=open(os.path.join(sc, f"err{i}"), "w"), stdin=subprocess.DEVNULL))
            outs.append(out)
        rcs = []
        for p in procs:
            try:
                rcs.append(p.wait(timeout=max(1, deadline + 300 - (_now() - t0))))
            except subprocess.TimeoutExpired:
                p.kill()
                rcs.append(-9)
        res, bad = [], []
        for i, (o, rc) in enumerate(zip(outs, rcs)):
            if rc == 0 and os.path.exists(o):
                res.append(json.load(open(o)))
            else:
                bad.append((i, rc, open(os.path.join(sc, f"err{i}")).read()[-3000:]))
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(sc, ignore_errors=True)
    wall = _now() - t0
    tot = collections.Counter()
    inj, ops = collections.Counter(), collections.Counter()
    cases, inter, states = set(), set(), set()
    sim_ns, samples, viols, known, nondet = 0, [], [], collections.Counter(), []
    for r in res:
        tot.update(r["st"]); inj.update(r["inj"]); ops.update(r["ops"])
        cases.update(r["cases"]); inter.update(r["inter"]); states.update(r["states"])
        sim_ns += r["sim_ns"]; samples += r["samples"][:1]; viols += r["viols"]
        known.update(r["known"]); nondet += r["nondet"]
    cov = {
        "evaluations": tot["runs"], "distinct_nontrivial": len(cases), "rule": check.rule,
        "samples": samples[:3] or [{"note": "no faulted sample"}],
        "workloads": tot["workloads"], "runs_per_hour": round(tot["runs"] / max(wall, 1e-9) * 3600),
        "seeds": f"VERIF_SEED={seed}, workloads 0..{tot['workloads'] - 1}",
        "simulated_seconds": round(sim_ns / 1e9, 3),
        "faults_injected": dict(sorted(inj.items())), "operations": dict(sorted(ops.items())),
        "distinct_interleavings": len(inter),
        "interleaving_measure": "distinct digests of the full ordered operation/scheduling log",
        "determinism_reruns": tot["replayed"], "determinism_mismatches": len(nondet), "mismatch_seeds": nondet[:5],
        "components_real": check.real, "components_stub": check.stub, "workers": nw,
    }
    if states:
        cov["distinct_states"] = len(states)
    ev = {"property": check.id, "tier": a.tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc = 0
    seen = set()
    for v in viols:
        kind, msg = v["violation"]
        if kind in seen:
            continue
        seen.add(kind)
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, f"{check.id}-{hashlib.sha256((kind + json.dumps(v['case'], sort_keys=True)).encode()).hexdigest()[:10]}.json")
        json.dump({"property": check.id, "check": sys.argv[0], **v}, open(name, "w"), indent=1)
        print(f"VIOLATION property={check.id} replay={name}")
        print(f"  {kind}: {msg[:600]}")
        rc = 1
    for what, n in sorted(known.items()):
        print(f"KNOWN-FINDING: property={check.id} {what}")
    with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad and rc == 0:
        for i, c, err in bad:
            print(f"worker {i} ended with {c}:\n{err}", file=sys.stderr)
        rc = 2
    print(f"{check.id} {a.tier}: {tot['runs']} runs, {len(cases)} distinct, {sum(inj.values())} faults, "
          f"{len(inter)} interleavings, {wall:.1f} s, violations {len(viols)}"
          + (f", nondeterministic {len(nondet)}" if nondet else ""))
    if a.v:
        print(json.dumps(cov["faults_injected"]), json.dumps(cov["operations"]))
    return rc
