import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sim import driver, pwfiles as pw
from sim.core import Violation


class C07(driver.Check):
    id = "C07"
    technique = "deterministic simulation: atomic replacements of the file interleaved with the reader's numbered operations"
    real = ["matersdk.io.pwmat.utils.acextractor.ACExtractor", "matersdk.io.publicLayer.structure.DStructure.from_file", "pymatgen Structure"]
    stub = ["the relaxation loop replacing the structure file", "read sizes", "clock and time stamps"]
    rule = ("a case is a list of file versions, of reader calls and of replacements at numbered reader operations; non-trivial when a "
            "replacement happened; distinct by (workload, operation-log digest)")
    assumptions = ["the file is replaced by rename, as crash-safe writers do; in-place rewriting is not covered"]
    quick = (4000, 12)
    thorough = (40000, 20)

    def setup(self):
        global ACExtractor, DStructure
        from matersdk.io.pwmat.utils.acextractor import ACExtractor
        from matersdk.io.publicLayer.structure import DStructure

    def gen(self, r, j):
        base = pw.gen_ac(r, f"c07.{j}")
        docs = [base]
        for i in range(r.choice([1, 2, 3])):
            d = {**base, "s": f"{base['s']}~{i}"}
            x = r.random()
            if x < .35:
                d["z"] = pw.gen_z(r)
            elif x < .5:
                d["z"] = [r.choice(pw.ZS)] * len(base["z"])
            if r.random() < .4:
                d["mag"] = not d.get("mag")
            docs.append(d)
        calls = [r.choice(["ac", "ds"]) for _ in range(r.choice([1, 1, 2]))]
        prog = []
        for c in calls:
            prog.append(c)
            if c == "ac":
                prog += [r.choice(["types", "coords", "magmoms", "basis", "num", "attrs", "gap"]) for _ in range(r.randint(1, 5))]
        return {"docs": docs, "prog": prog, "faults": [],
                "opts": {"bufsize": r.choice([16, 64, 256, 8192]), "gran_ns": r.choice([1, 10**9])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        n = max(1, info["phases"]["prog"]["n"])
        gaps = case["prog"].count("gap")
        case["faults"] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            i = r.randrange(len(case["docs"]))
            ev = {"t": "replace", "i": i} if r.random() < .95 else {"t": "delete"}
            case["faults"].append({"op": "any", "n": r.randint(1, n), "do": "event", "ev": ev})
        case["gaps"] = [r.randrange(len(case["docs"])) for _ in range(gaps)]
        return case

    def run(self, sim, case):
        docs = [pw.AtomConfig(d) for d in case["docs"]]
        sim.write("atom.config", docs[0].text())
        path = sim.path("atom.config")
        live = [0]                     # versions the file had, in order
        dead = [False]

        def replace(ev):
            sim.replace("atom.config", docs[ev["i"]].text())
            live.append(ev["i"])
            dead[0] = False

        def delete(ev):
            if os.path.exists(path):
                os.remove(path)
            dead[0] = True
        sim.handlers["replace"], sim.handlers["delete"] = replace, delete
        hist = []
        gaps = list(case.get("gaps") or [])

        def program():
            ac, first = None, 0
            for c in case["prog"]:
                try:
                    if c == "gap":
                        if gaps:
                            with_sim = sim.active
                            sim.active = False
                            replace({"i": gaps.pop(0)})
                            sim.active = with_sim
                            sim.injected["replace-between"] += 1
                    elif c == "ds":
                        lo = len(live) - 1
                        s = DStructure.from_file(path, "pwmat")
                        hist.append(("ds", lo, len(live), (s.lattice.matrix.copy(), [str(x.specie) for x in s], s.frac_coords.copy())))
                    elif c == "ac":
                        ac, first = None, len(live) - 1
                        ac = ACExtractor(path)
                        hist.append(("ac", first, len(live), []))
                        hist[-1][3].append(("attrs", (ac.num_atoms, ac.basis_vectors, ac.types, ac.coords)))
                    elif ac is not None:
                        v = {"types": lambda: ac.get_types(), "coords": lambda: ac.get_coords(), "magmoms": lambda: ac.get_magmoms(),
                             "basis": lambda: ac.get_basis_vectors(), "num": lambda: ac.get_num_atoms(),
                             "attrs": lambda: (ac.num_atoms, ac.basis_vectors, ac.types, ac.coords)}[c]()
                        [h for h in hist if h[0] == "ac"][-1][3].append((c, v))
                except Exception as e:
                    e.__traceback__ = None
                    if not sim.injected:
                        raise
        o = sim.call(program, case["faults"], name="prog")
        if o.kind != "ok":
            raise Violation("raised" if o.kind == "exc" else o.kind, f"{o!r}")
        for kind, lo, hi, v in hist:
            cand = sorted(set(live[lo:hi]))
            if kind == "ds":
                if not any(self.same_ds(docs[i], v) for i in cand):
                    raise Violation("mixed", f"DStructure.from_file returned neither version {cand}")
            else:
                ok = [i for i in cand if all(self.same_ac(docs[i], c, x) for c, x in v)]
                if not ok:
                    bad = [c for c, x in v if not any(self.same_ac(docs[i], c, x) for i in cand)]
                    raise Violation("mixed", f"values of one ACExtractor belong to no single version of {cand} ({bad or 'mixed'}; {[c for c, _ in v]})")

    def same_ds(self, a, v):
        if v[1] != [pw.ELEMENTS[z] for z in a.z] or not np.allclose(np.ravel(v[0]), a.box, rtol=1e-12, atol=1e-12):
            return False
        d = np.ravel(v[2]) - a.coords
        return bool(np.all(np.abs(d - np.round(d)) < 1e-9))

    def same_ac(self, a, c, x):
        if c == "attrs":
            return x[0] == len(a.z) and self.same_ac(a, "basis", x[1]) and self.same_ac(a, "types", x[2]) and self.same_ac(a, "coords", x[3])
        w = {"types": a.z, "coords": a.coords, "magmoms": a.mags, "basis": a.box, "num": [len(a.z)]}[c]
        return pw.close(np.ravel(x), np.ravel(w))

    def nontrivial(self, case, info):
        return bool(info["injected"])

    def shrink(self, case):
        p = case["prog"]
        for i in range(len(p)):
            if len(p) > 1:
                yield {**case, "prog": p[:i] + p[i + 1:]}
        for i, d in enumerate(case["docs"]):
            if len(d["z"]) > 1:
                yield {**case, "docs": case["docs"][:i] + [{**d, "z": d["z"][:1]}] + case["docs"][i + 1:]}
            if d.get("mag"):
                yield {**case, "docs": case["docs"][:i] + [{**d, "mag": False}] + case["docs"][i + 1:]}


if __name__ == "__main__":
    driver.main(C07)
