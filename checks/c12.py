import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, writers, faults as fl
from sim.core import Violation

STRICT = ("write", "open_w", "close_w", "fsync", "truncate")


class C12(driver.Check):
    id = "C12"
    technique = "deterministic simulation: write histories with crashes, torn writes, disk faults and retries on reused paths"
    real = ["matersdk.io.publicLayer.structure", "matersdk.calculation.kpath", "matersdk.io.pwmat.input.gen_vext/dos_input", "matersdk.hpc.slurm.job",
            "pymatgen writers", "real files in scratch"]
    stub = ["process death (unflushed buffers lost)", "disk faults at the os/io seam"]
    rule = ("a case is a history of one to four writes by any of the writers to one or two paths that may hold old files, each with crash or fault points, then "
            "a healthy write of the last document of each path; non-trivial when a crash or fault fired or a path was reused; distinct by (workload, log digest)")
    assumptions = ["process crash, not power loss"]
    alloc, alloc_phases = 0.12, r"write\d+"
    quick = (480, 9)
    thorough = (30000, 12)

    def setup(self):
        writers.load()

    def gen(self, r, j):
        kind = writers.KINDS[j % len(writers.KINDS)]
        steps = []
        for i in range(r.choice([1, 2, 2, 3, 4])):
            k = kind if i == 0 or r.random() < .75 else r.choice(writers.KINDS)
            steps.append({"p": writers.gen(r, k, f"c12.{j}.{i}"), "f": r.choice(["o", "o", "o", "q"]), "faults": []})
        return {"steps": steps, "pre": r.choice([None, None, "short", "long", "junk"]), "sub": r.random() < .3, "cwd": r.random() < .25,
                "opts": {"bufsize": r.choice([16, 64, 256, 1024, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        hit = False
        for i, s in enumerate(case["steps"]):
            c = info["phases"].get(f"write{i}", {}).get("c") or {}
            if c and (r.random() < .7 or (i == len(case["steps"]) - 1 and not hit)):
                f = (fl.crash if r.random() < .5 else fl.hard)(r, c)
                if f:
                    s["faults"].append(f)
                    hit = True
        return case

    def run(self, sim, case):
        d = "w/sub" if case["sub"] else "w"
        os.makedirs(sim.path(d))
        sim.write(d + "/other", "user\n")
        for x in ("o.bak", "o.tmp", "q~", "O"):
            sim.write(d + "/" + x, "user " + x)
        if case["pre"]:
            sim.write(d + "/o", {"short": "x", "long": "old line\n" * 400, "junk": "\xff\x00junk\n" * 7}[case["pre"]])
        st = case["steps"]
        last = {}
        for s in st:
            last[s["f"]] = s
        cwd = os.getcwd()
        try:
            if case["cwd"]:
                os.chdir(sim.path(d))
            for i, s in enumerate(st + [{**x, "faults": []} for x in last.values()]):
                ob = writers.Obj(s["p"])
                before = sim.snapshot(".")
                n0 = dict(sim.injected)
                f = s["f"] if case["cwd"] else sim.path(d, s["f"])
                o = sim.call(lambda: ob.write(ob.build(), f), s["faults"], name=f"write{i}")
                what = f"{s['p']['k']} write {i} ({o!r})"
                if o.kind == "hang":
                    raise Violation("hang", str(o.exc))
                after = sim.snapshot(".")
                me = d + "/" + s["f"]
                for p, v in before.items():
                    if p != me and after.get(p, 0) != v:
                        raise Violation("other-file", f"{what} changed or removed {p}")
                met = {k for k in sim.injected if sim.injected[k] > n0.get(k, 0)} - {"short"}
                if o.kind == "ok":
                    new = [p for p in after if p not in before and p != me]
                    if new:
                        raise Violation("stray", f"{what} left {new[:3]}")
                    if after.get(me) is None:
                        raise Violation("missing", f"{what} left no file")
                    e = ob.differs(after[me])
                    if e:
                        raise Violation("wrong-document", f"{what}: {e}")
                    if met and any(x["op"] in STRICT and fl.is_hard(x) for x in s["faults"]):
                        raise Violation("swallowed", f"{what} although {s['faults']} was met")
                elif o.kind == "exc" and not met:
                    raise Violation("raised", f"{what} without a fault")
                if o.kind == "crash":
                    sim.restart()
        finally:
            os.chdir(cwd)

    def nontrivial(self, case, info):
        return bool(info["injected"]) or bool(case["pre"]) or len(case["steps"]) > 1

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            if s["faults"]:
                yield {**case, "steps": st[:i] + [{**s, "faults": []}] + st[i + 1:]}
            for p in writers.shrink(s["p"]):
                yield {**case, "steps": st[:i] + [{**s, "p": p}] + st[i + 1:]}
        for k in ("pre", "sub", "cwd"):
            if case[k]:
                yield {**case, k: None}


if __name__ == "__main__":
    driver.main(C12)
