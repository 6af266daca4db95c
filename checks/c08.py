import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, coll
from sim.core import Violation


class C08(driver.Check):
    id = "C08"
    technique = "deterministic simulation: seeded worker scheduling over simulated core counts, results against the serial definition"
    real = ["matersdk.feature.avg.msd", "matersdk.data.struct_collection", "matersdk.io.publicLayer.neigh/structure", "forked worker processes"]
    stub = ["process-pool scheduling (which worker takes which chunk, completion order)", "number of processor cores"]
    rule = ("a case is a trajectory, one or more parallel analyses, a core count and a schedule; non-trivial when at least two tasks ran "
            "in a pool; distinct by (workload, scheduling-log digest)")
    assumptions = ["workers communicate only through arguments and results, as forked processes do"]
    quick = (480, 7)
    thorough = (12000, 12)

    def setup(self):
        coll.load()

    def gen(self, r, j):
        p = coll.long(r, coll.gen(r, f"c08.{j}"), 17, 33, 65, 130)
        fs = [coll.gen_func(r, p) for _ in range(r.choice([1, 2]))]
        fs[0]["f"] = coll.FUNCS[j % len(coll.FUNCS)]
        return {"p": p, "fs": fs, "opts": {"cores": r.choice([1, 2, 3, 4, 5, 6, 8, 16]), "sched": r.randrange(10**6)}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["opts"] = {"cores": r.choice([1, 2, 3, 3, 4, 4, 5, 6, 8, 12, 128]), "sched": r.randrange(10**9)}
        return case

    def run(self, sim, case):
        ref = coll.Ref(case["p"])
        for i, f in enumerate(case["fs"]):
            o = sim.call(lambda: coll.analyse(ref, f), name=f"call{i}")
            if o.kind != "ok":
                raise Violation("hang" if o.kind == "hang" else "raised", f"{f['f']} with {case['opts']['cores']} cores: {o!r}")
            e = coll.analysis_differs(ref, f, o.value)
            if e:
                raise Violation("wrong-result", f"{f['f']} ({case['p']['nf']} frames, {case['opts']['cores']} cores): {e}")
            if sim.pools_left:
                raise Violation("pool-left", f"{f['f']} returned with a pool still running")

    def nontrivial(self, case, info):
        return sum("takes chunk" in l for l in info["log"]) > 1

    def shrink(self, case):
        if len(case["fs"]) > 1:
            for f in case["fs"]:
                yield {**case, "fs": [f]}
        for p in coll.shrink(case["p"]):
            yield {**case, "p": p}
        for c in (1, 4):
            if case["opts"]["cores"] > c:
                yield {**case, "opts": {**case["opts"], "cores": c}}


if __name__ == "__main__":
    driver.main(C08)
