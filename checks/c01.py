import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, ds, pwfiles as pw
from sim.core import Violation


class C01(driver.Check):
    id = "C01"
    technique = "deterministic simulation: seeded directory orders, file mixes and hash seeds against a reference model"
    real = ["matersdk.data.infosets", "matersdk.data.infoset", "matersdk.io.pwmat.utils.mvextractor",
            "matersdk.io.pwmat.utils.acextractor", "matersdk.io.pwmat.utils.lineLocator", "real files in scratch"]
    stub = ["directory enumeration order (seeded)", "read sizes (seeded)", "interpreter hash seed (seeded per worker)"]
    rule = ("a case is a generated tree of trajectory files plus one directory enumeration order and read-buffer size; "
            "non-trivial when it holds at least two files or a file with two frames; distinct by the digest of the full operation log")
    assumptions = ["one trajectory file has one composition (an MD run)"]
    alloc, alloc_phases = 0.12, r"ingest"
    quick = (1600, 5)
    thorough = (60000, 8)

    def setup(self):
        global InfoSets, InfoSet
        from matersdk.data.infosets import InfoSets
        from matersdk.data.infoset import InfoSet

    def gen(self, r, j):
        t = ds.gen_tree(r, f"c01.{j}")
        if j % 150 == 77:
            t["files"][0]["t"].update(nf=r.choice([101, 257, 1003 if j == 77 else 130]), z=t["files"][0]["t"]["z"][:2], rep=False)
        return {"tree": t, "opts": self.o(r), "fname": r.choice(["MOVEMENT", "movement"])}

    def o(self, r):
        return {"order": r.randrange(10**9), "bufsize": r.choice([64, 300, 1024, 8192]), "cores": r.choice([1, 2, 4, 16])}

    def plan(self, r, case, info, k):
        case["opts"] = self.o(r)
        case["seed"] = f"{case['seed']}+{k}"
        return case

    def run(self, sim, case):
        ds.write_tree(sim, case["tree"])
        before = sim.snapshot("in")
        out = sim.call(lambda: InfoSets.from_dir(sim.path("in"), case["fname"], "pwmat/movement"), name="ingest")
        if out.kind == "exc" and sim.injected:
            out = sim.call(lambda: InfoSets.from_dir(sim.path("in"), case["fname"], "pwmat/movement"), name="again")
        if out.kind != "ok":
            raise Violation("raised", f"ingest of well-formed files failed: {out!r} {out.tb[-400:]}")
        if sim.snapshot("in") != before:
            raise Violation("side-effect", "ingestion changed the input tree")
        sim.log.append("result " + " ".join(sorted(f"{s.formula}:{s.num_frames}" for s in out.value.infoset_lst)))
        ds.check_infosets(case["tree"], out.value)

    def nontrivial(self, case, info):
        f = case["tree"]["files"]
        return len(f) > 1 or f[0]["t"]["nf"] > 1

    def shrink(self, case):
        for t in ds.shrink_tree(case["tree"]):
            yield {**case, "tree": t}


if __name__ == "__main__":
    driver.main(C01)
