import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, coll, collfs
from sim.core import Violation


class C09(driver.Check):
    id = "C09"
    technique = "deterministic simulation: failing frames, failing tasks and failing pool creation under seeded worker schedules"
    real = ["matersdk.feature.avg.msd", "matersdk.data.struct_collection", "matersdk.io.publicLayer.neigh/structure", "forked worker processes"]
    stub = ["process-pool scheduling", "number of processor cores", "the failing computation (a frame whose data raises when used)"]
    rule = ("a case is a trajectory, a parallel analysis or per-frame export, a core count, a schedule and one or two failures (a frame whose "
            "data raises inside the worker, a failing task, failing file operations of a worker, failing pool creation), then a healthy call; "
            "non-trivial when a failure was met; distinct by (workload, log digest)")
    assumptions = ["a worker killed outright is not a failing computation: multiprocessing.Pool itself then waits for ever"]
    alloc, alloc_phases = 0.25, r"faulty"
    quick = (300, 9)
    thorough = (12000, 14)

    def setup(self):
        coll.load()

    def gen(self, r, j):
        p = coll.gen(r, f"c09.{j}", nf=r.choice([2, 3, 4, 5, 7, 9]), nmax=3 if j % 6 == 5 else 4)
        if j % 6 != 5:
            coll.long(r, p, 17, 33, 65, 130)
        f = coll.gen_func(r, p)
        f["f"] = (coll.FUNCS + ["save"])[j % 6]
        if f["f"] == "save":
            f["scal"] = r.choice([[1, 1, 1], [3, 1, 1]])
        return {"p": p, "f": f, "poison": {}, "faults": [], "opts": {"cores": r.choice([1, 3, 4, 6]), "sched": r.randrange(10**6)}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["opts"] = {"cores": r.choice([1, 3, 4, 5, 6, 8, 16]), "sched": r.randrange(10**9)}
        nf = case["p"]["nf"]
        ntask = sum("takes chunk" in l for l in info["log"])
        m = r.random()
        if m < .6:
            i = r.choice([0, nf - 1, r.randrange(nf)])
            if case["f"]["f"] in ("max", "maxel") and nf < 12 and r.random() < .6:
                i = self.top(case)                       # the frame that decides the answer
            exc = lambda: r.choice(sorted(coll.EXC) if r.random() < .6 else ["MemoryError", "OSError", "ValueError", "IndexError"])
            if case["f"]["f"] in ("msd", "msd_c", "di") and len(case["p"]["z"]) >= 3 and r.random() < .2:
                case["poison"] = {str(i): [["short"], ""]}
            else:
                at = r.choice([["cart_coords", "frac_coords"], ["cart_coords"], ["species"], ["sites"], ["lattice"], ["num_sites"]])
                case["poison"] = {str(i): [at, exc()]}
                if r.random() < .2 and nf > 2:
                    case["poison"][str((i + 1) % nf)] = [at, exc()]
        elif m < .85:
            case["faults"] = [{"op": "task", "n": r.randint(1, max(nf - 1, 1)), "do": "task",
                               "exc": r.choice(["RuntimeError", "ValueError", "MemoryError", "OSError", "KeyError", "ZeroDivisionError",
                                                "AttributeError", "IndexError"])}]
        elif m < .93 or case["f"]["f"] != "save":
            case["faults"] = [{"op": "pool", "n": 1, "do": "errno", "errno": r.choice(["EAGAIN", "ENOMEM", "EMFILE"])}]
        else:
            t = r.randrange(nf)
            c = r.choice(["open_w", "write", "close_w"])
            case["faults"] = [{"op": f"task{t}:{c}", "n": r.choice([1, 2, 3]), "do": "errno", "errno": r.choice(["ENOSPC", "EIO"])}]
        return case

    def top(self, case):
        ref, f = coll.Ref(case["p"]), case["f"]
        return max(range(ref.nf), key=lambda i: max(ref.nbrs(i, c, f["rcut"], f["scal"]) or 0 for c in range(ref.n)))

    def call(self, sim, ref, f, poison, faults, name):
        if f["f"] != "save":
            return sim.call(lambda: coll.analyse(ref, f, poison), faults, name=name)
        return sim.call(lambda: ref.collection(poison).save_all_info(sim.path("out"), scaling_matrix=f["scal"]), faults, name=name)

    def differs(self, sim, ref, f, o):
        if f["f"] != "save":
            return coll.analysis_differs(ref, f, o.value)
        return collfs.images_differ(ref, sim.snapshot("out"), f["scal"])

    def run(self, sim, case):
        ref, f = coll.Ref(case["p"]), case["f"]
        for name, poison, faults in (("faulty", case["poison"], case["faults"]), ("healthy", {}, [])):
            met = sum(sim.injected.values())
            o = self.call(sim, ref, f, poison, faults, name)
            met = sum(sim.injected.values()) - met
            if o.kind == "hang":
                raise Violation("hang", f"{f['f']}: {o!r}")
            if sim.pools_left and not set(sim.injected) & {"MemoryError", "KeyboardInterrupt"}:
                raise Violation("pool-left", f"{f['f']} ended ({o!r}) with a pool still running")
            if o.kind == "exc":
                if not poison and not met:
                    raise Violation("raised", f"{f['f']} without any failing frame: {o!r}")
                continue
            if ["short"] in [x[0] for x in poison.values()]:
                raise Violation("swallowed", f"{f['f']} returned although frame {list(poison)} lacks an atom")
            e = self.differs(sim, ref, f, o)
            if e:
                raise Violation("swallowed" if name == "faulty" and (poison or met) else "wrong-result", f"{f['f']}: {e} ({name}; failing frames {poison}, faults {faults})")

    def nontrivial(self, case, info):
        return bool(case["poison"]) or bool(info["injected"])

    def shrink(self, case):
        if len(case["poison"]) > 1:
            for k in case["poison"]:
                yield {**case, "poison": {k: case["poison"][k]}}
        if not case["poison"]:
            for p in coll.shrink(case["p"]):
                yield {**case, "p": p}
        for c in (1, 4):
            if case["opts"]["cores"] > c:
                yield {**case, "opts": {**case["opts"], "cores": c}}


if __name__ == "__main__":
    driver.main(C09)
