import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, ds, faults as fl
from sim.core import Violation


class C02(driver.Check):
    id = "C02"
    technique = "deterministic simulation with injected disk faults; on-disk dataset decoded against a reference model"
    real = ["matersdk.data.infosets", "matersdk.data.infoset", "numpy.save", "real files in scratch"]
    stub = ["disk: failing/short/partial operations chosen by seed at the os/io seam", "write-buffer size"]
    rule = ("a case is a dataset, a part size and a list of faults at numbered file operations of the export; non-trivial "
            "when it has a fault, several parts or several compositions; distinct by the digest of the operation log")
    assumptions = ["file-system operations either raise or do what they report (no silent bit rot)"]
    alloc, alloc_phases = 0.12, r"export"
    quick = (500, 12)
    thorough = (30000, 16)

    def setup(self):
        global InfoSets
        from matersdk.data.infosets import InfoSets

    def gen(self, r, j):
        t = ds.gen_tree(r, f"c02.{j}")
        if r.random() < .15:
            t["files"][0]["t"]["nf"] = r.choice([7, 12, 25])
        many = r.random() < .01
        if many:                                   # part numbers with two and three digits
            t["files"] = t["files"][:2]
            t["files"][0]["t"].update(nf=r.choice([101, 120]), z=t["files"][0]["t"]["z"][:2])
        if j % 500 == 77:                          # and four digits
            many = True
            t["files"] = t["files"][:1]
            t["files"][0]["t"].update(nf=1003, z=t["files"][0]["t"]["z"][:1], rep=False)
        tail = j % 100 == 33                       # a last part far smaller than the others
        if tail:
            many = False
            t["files"] = t["files"][:1]
            t["files"][0]["t"].update(nf=r.choice([101, 102, 121]), z=t["files"][0]["t"]["z"][:2], rep=False)
        return {"each": r.random() < .25, "tree": t, "opts": {"order": r.randrange(10**6), "bufsize": r.choice([64, 256, 1024, 8192])},
                "part": (r.choice([1, 1, 50, 100, 100]) if len(t["files"]) > 1 or t["files"][0]["t"]["nf"] < 1000 else 1) if many else 100 if tail and r.random() < .7 else r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 100]), "faults": []}

    def plan(self, r, case, info, k):
        if case["tree"]["files"][0]["t"]["nf"] > 1000:
            return None
        c = info["phases"]["export"]["c"]
        n = r.choice([1, 1, 1, 2, 3])
        case["faults"] = [f for f in ((fl.benign if r.random() < .15 else fl.hard)(r, c) for _ in range(n)) if f]
        case["seed"] = f"{case['seed']}+{k}"
        return case

    def run(self, sim, case):
        ds.write_tree(sim, case["tree"])
        o = sim.call(lambda: InfoSets.from_dir(sim.path("in"), "MOVEMENT", "pwmat/movement"), name="ingest")
        if o.kind != "ok":
            raise Violation("raised", f"ingest failed: {o!r}")
        sets = o.value
        os.mkdir(sim.path("out"))
        part = case["part"] or False
        before = sim.snapshot("in")

        def export(d):
            for s in sets.infoset_lst if case.get("each") else [sets]:          # group by group, or all at once
                s.to_dir(sim.path(d)) if part is False else s.to_dir(sim.path(d), part)
        o = sim.call(lambda: export("out"), case["faults"], name="export")
        fired = [f for f in case["faults"] if fl.is_hard(f)]
        if o.kind == "ok":
            try:
                ds.check_export(case["tree"], sets, sim.path("out"), part)
            except Violation as v:
                raise Violation("false-success:" + v.kind if fired else v.kind, v.msg + f" (faults {case['faults']})")
        elif o.kind == "exc":
            hard = sum(v for k, v in sim.injected.items() if k != "short")
            if not hard:
                raise Violation("raised", f"export of a sound dataset to an empty folder failed: {o!r} {o.tb[-300:]}")
        else:
            raise Violation(o.kind, f"export did not end: {o.exc}")
        if sim.snapshot("in") != before:
            raise Violation("side-effect", "export changed the input tree")
        # once the faults are over, the same dataset exports completely
        os.mkdir(sim.path("out2"))
        o = sim.call(lambda: export("out2"), name="export2")
        if o.kind != "ok":
            raise Violation("no-recovery", f"export after the faults ended: {o!r}")
        ds.check_export(case["tree"], sets, sim.path("out2"), part)

    def nontrivial(self, case, info):
        return bool(info["injected"]) or len(case["tree"]["files"]) > 1 or case["part"] > 0

    def shrink(self, case):
        for t in ds.shrink_tree(case["tree"]):
            yield {**case, "tree": t}
        if case.get("each"):
            yield {**case, "each": False}
        if case["part"]:
            yield {**case, "part": 0}


if __name__ == "__main__":
    driver.main(C02)
