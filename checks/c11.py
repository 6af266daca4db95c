import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, coll, collfs, faults as fl
from sim.core import Violation

STRICT = ("write", "open_w", "close_w", "fsync", "truncate")


class C11(driver.Check):
    id = "C11"
    technique = "deterministic simulation: save histories under seeded worker schedules, crashes, torn writes, disk and worker faults"
    real = ["matersdk.data.struct_collection", "matersdk.io.publicLayer.structure/neigh", "forked worker processes", "numpy.save", "real files in scratch"]
    stub = ["process-pool scheduling", "core count", "process death", "disk faults at the os/io seam, in the parent and in every worker"]
    rule = ("a case is a history of one or two saves of collections into one folder, each with a core count, a schedule and crash or fault points in "
            "the parent or a worker, then a healthy retry; non-trivial when a fault fired or the folder existed; distinct by (workload, log digest)")
    assumptions = ["process crash, not power loss", "a kill ends the parent and its workers together, as a batch system does"]
    alloc, alloc_phases = 0.15, r"save\d+"
    quick = (200, 9)
    thorough = (10000, 14)

    def setup(self):
        coll.load()

    def gen(self, r, j):
        steps = []
        for i in range(r.choice([1, 1, 2])):
            p = coll.gen(r, f"c11.{j}.{i}", nf=r.choice([1, 2, 3, 4, 5, 9, 10, 11]), nmax=3)
            if r.random() < .2:
                coll.long(r, p, 33, 102)
            p["first0"] = r.random() < .25
            steps.append({"p": p, "scal": r.choice([[1, 1, 1], [3, 1, 1], [1, 3, 1], [1, 1, 3], [3, 3, 1]]), "faults": []})
        pre = [x for x in ("notes.txt", "keep/me", "0/stale.npy", "00/stale.npy", "0/atomic_energy.npy", "01/deep/er", "7x/y") if r.random() < .25]
        return {"steps": steps, "pre": pre, "mk": r.random() < .5,
                "opts": {"order": r.randrange(10**6), "cores": r.choice([1, 2, 3, 4, 6, 8]), "sched": r.randrange(10**6),
                         "bufsize": r.choice([64, 1024, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["opts"]["cores"] = r.choice([1, 3, 4, 5, 8, 32])
        case["opts"]["sched"] = r.randrange(10**9)
        hit = False
        for i, s in enumerate(case["steps"]):
            ph = info["phases"].get(f"save{i}") or {}
            if r.random() < .75 or (i == len(case["steps"]) - 1 and not hit):
                x = r.random()
                if x < .45 and ph.get("t"):
                    t = r.choice(sorted(ph["t"], key=int))
                    c = {k: v for k, v in ph["t"][t].items() if k != "any"}
                    f = (fl.crash if r.random() < .5 else fl.hard)(r, c)
                    if f:
                        f["op"] = f"task{t}:{f['op']}"
                        f.pop("sticky", None)
                elif x < .55:
                    f = {"op": "task", "n": r.randint(1, s["p"]["nf"]), "do": "task", "exc": r.choice(["RuntimeError", "MemoryError", "OSError"])}
                else:
                    f = (fl.crash if r.random() < .5 else fl.hard)(r, ph.get("c") or {})
                if f:
                    s["faults"].append(f)
                    hit = True
        return case

    def run(self, sim, case):
        if case["mk"] or case["pre"]:
            os.mkdir(sim.path("out"))
        for p in case["pre"]:
            try:
                sim.write("out/" + p, "user " + p)
            except OSError:
                pass
        sim.write("beside/x", "user")
        st = case["steps"]
        for i, s in enumerate(st + [{**st[-1], "faults": []}]):
            ref = coll.Ref(s["p"])
            mine = {collfs.folder(k, ref.nf) for k in range(ref.nf)}
            before = {k: v for k, v in (sim.snapshot("out") if os.path.isdir(sim.path("out")) else {}).items() if k.split("/")[0] not in mine}
            n0 = dict(sim.injected)
            o = sim.call(lambda: ref.collection().save_all_info(sim.path("out"), scaling_matrix=list(s["scal"])), s["faults"], name=f"save{i}")
            if o.kind == "hang":
                raise Violation("hang", str(o.exc))
            if sim.pools_left and o.kind != "crash" and not set(sim.injected) & {"MemoryError", "KeyboardInterrupt"}:
                raise Violation("pool-left", f"save {i} ended ({o!r}) with a pool still running")
            snap = sim.snapshot("out") if os.path.isdir(sim.path("out")) else {}
            for k, v in before.items():
                if snap.get(k, 0) != v:
                    raise Violation("unrelated", f"save {i} ({o!r}) changed or removed {k}, which is no frame folder")
            if sim.snapshot("beside") != {"x": b"user"}:
                raise Violation("outside", f"save {i} ({o!r}) touched a folder beside its target")
            met = {k for k in sim.injected if sim.injected[k] > n0.get(k, 0)} - {"short"}
            if o.kind == "ok":
                e = collfs.images_differ(ref, snap, s["scal"])
                if e:
                    raise Violation("wrong-image", f"save {i} returned but {e}")
                new = [k for k in snap if k not in before and k.split("/")[0] not in mine]
                if new:
                    raise Violation("stray", f"save {i} left {new[:3]}")
                if met and any((f["op"].split(":")[-1] in STRICT and fl.is_hard(f)) or f["op"] == "task" for f in s["faults"]):
                    raise Violation("swallowed", f"save {i} returned although {s['faults']} was met")
            elif o.kind == "exc" and not met:
                raise Violation("raised", f"save {i} without a fault: {o!r}")
            if o.kind == "crash":
                sim.restart()

    def nontrivial(self, case, info):
        return bool(info["injected"]) or bool(case["pre"]) or len(case["steps"]) > 1

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            if s["faults"]:
                yield {**case, "steps": st[:i] + [{**s, "faults": []}] + st[i + 1:]}
            for p in coll.shrink(s["p"]):
                yield {**case, "steps": st[:i] + [{**s, "p": p}] + st[i + 1:]}
        for i in range(len(case["pre"])):
            yield {**case, "pre": case["pre"][:i] + case["pre"][i + 1:]}
        if case["opts"]["cores"] > 1:
            yield {**case, "opts": {**case["opts"], "cores": 1}}


if __name__ == "__main__":
    driver.main(C11)
