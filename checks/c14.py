import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
import numpy as np
from sim import driver, faults as fl, pwfiles as pw
from sim.core import Violation

STRICT = ("write", "open_w", "close_w", "fsync", "truncate")


class Draws:
    """The random generator as a seam: records every draw and scripts extreme ones."""
    def __init__(self, seed, extreme):
        self.r, self.extreme = random.Random(f"draw/{seed}"), extreme
        self.u, self.g, self.rest = [], [], np.random.RandomState(random.Random(f"np/{seed}").randrange(2**31))

    def __enter__(self):
        new = {"rand": self.rand, "randn": self.randn, "random": lambda size=None: self.rand(*self._shape(size)),
               "random_sample": lambda size=None: self.rand(*self._shape(size)), "standard_normal": lambda size=None: self.randn(*self._shape(size)),
               "uniform": lambda low=0.0, high=1.0, size=None: low + (high - low) * self.rand(*self._shape(size)),
               "normal": lambda loc=0.0, scale=1.0, size=None: loc + scale * self.randn(*self._shape(size)), "seed": lambda *a: None}
        self.saved = {k: getattr(np.random, k) for k in new}
        for k, v in new.items():
            setattr(np.random, k, v)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)

    @staticmethod
    def _shape(size):
        return () if size is None else (size,) if np.isscalar(size) else tuple(size)

    def _fill(self, real, shape, special, log):
        v = np.asarray(real(*shape), dtype=float)
        if self.extreme:
            f = v.reshape(-1)
            mode = self.r.choice(["all", "mix", "none"])
            x = self.r.choice(special)
            for i in range(f.size):
                if mode == "all":
                    f[i] = x
                elif mode == "mix" and self.r.random() < .5:
                    f[i] = self.r.choice(special)
        log += [float(x) for x in np.ravel(v)]
        return v if shape else float(v)

    def rand(self, *shape):
        return self._fill(self.rest.rand, shape, [0.0, 1 - 2.0**-53, .5], self.u)

    def randn(self, *shape):
        return self._fill(self.rest.randn, shape, [0.0, 6.5, -6.5, 1e-12], self.g)


class Orig:
    def __init__(self, p):
        r = pw.R("pert", p["s"])
        self.z = list(p["z"])
        a = [r.uniform(3, 9) for _ in range(3)]
        self.box = np.array([[round(a[i] if i == j else r.choice([0, r.uniform(-1.2, 1.2)]), 8) for j in range(3)] for i in range(3)])
        if p["rot"]:
            q, _ = np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
            if np.linalg.det(q) < 0:
                q = -q
            self.box = np.round(self.box @ q, 8)
        if np.linalg.det(self.box) < 0:
            self.box[0] *= -1
        if p["left"]:
            self.box[2] *= -1
        self.frac = np.array([[round(r.uniform(0, 1), 9) for _ in range(3)] for _ in self.z])

    def text(self):
        L = [f"  {len(self.z)} atoms", "Lattice vector (Angstrom)"] + ["   " + "   ".join(f"{x:.8f}" for x in row) for row in self.box]
        L.append("Position (normalized), move_x, move_y, move_z")
        L += [f"  {z}   " + "   ".join(f"{x:.9f}" for x in f) + "   1  1  1" for z, f in zip(self.z, self.frac)]
        return "\n".join(L) + "\n"


def parse(text):
    L = text.split("\n")
    n = int(L[0].split()[0])
    if L[-1] != "" or len(L) != 7 + n:
        raise ValueError(f"{len(L) - 1} lines for {n} atoms")
    box = np.array([[float(x) for x in l.split()] for l in L[2:5]])
    z = [int(l.split()[0]) for l in L[6:6 + n]]
    return box, z, np.array([[float(x) for x in l.split()[1:4]] for l in L[6:6 + n]])


def judge(o, box, z, frac, f, a, vecs, tol, u=None):
    """One perturbed structure against its original."""
    if z != o.z:
        return f"elements {z} instead of {o.z}"
    if frac.shape != o.frac.shape or box.shape != (3, 3):
        return "shape"
    if np.max(np.abs(np.triu(box, 1))) > tol or np.min(np.diag(box)) <= 0:
        return f"cell {box.tolist()} is not lower triangular with positive diagonal"
    m = np.linalg.solve(o.box, box)                  # strain times rotation
    w, v = np.linalg.eigh(m @ m.T)
    if np.min(w) <= 0:
        return "singular strain"
    s = v @ np.diag(np.sqrt(w)) @ v.T
    q = np.linalg.solve(s, m)
    t = tol * 20
    if np.linalg.det(q) < 0:
        return "the cell was mirrored"
    e = s - np.eye(3)
    if np.max(np.abs(np.diag(e))) > f + t or np.max(np.abs(e - np.diag(np.diag(e)))) > .5 * f + t:
        return f"strain {np.round(e, 6).tolist()} exceeds {f}"
    if u is not None:
        have = np.sort([e[0, 0], e[1, 1], e[2, 2], 2 * e[0, 1], 2 * e[0, 2], 2 * e[1, 2]])
        want = np.sort((2 * np.asarray(u) - 1) * f)
        if np.max(np.abs(have - want)) > 3 * t:
            return f"strain components {np.round(have, 6).tolist()} are not the drawn {np.round(want, 6).tolist()}"
    d = (frac @ box) @ q.T - (o.frac @ o.box) @ s
    t = tol * 200
    if vecs is not None:
        w = a * np.asarray(vecs) / np.sqrt(3)
        if np.max(np.abs(d - w)) > t:
            return f"displacements {np.round(d, 5).tolist()} instead of {np.round(w, 5).tolist()}"
    elif np.max(np.abs(d)) > 9 * a + t:
        return f"displacements {np.round(d, 5).tolist()} with scale {a}"
    return None


class C14(driver.Check):
    id = "C14"
    technique = "deterministic simulation: scripted and extreme random draws, batch runs with crashes, disk faults and retries"
    real = ["matersdk.adalearn.generator.perturbation", "matersdk.io.publicLayer.structure", "real files in scratch"]
    stub = ["np.random.rand/randn (recorded, with scripted extremes)", "process death", "disk faults at the os/io seam"]
    rule = ("a case is one structure or a batch of systems, a number of copies, strain and displacement bounds, a draw script and fault points; non-trivial when "
            "extreme draws were scripted or a fault fired or more than one system or copy is involved; distinct by (workload, log digest)")
    assumptions = ["cells are right-handed; for a left-handed cell raising is accepted", "strain bound at most 0.3 so that the strain is positive definite"]
    alloc, alloc_phases = 0.12, r"batch0|perturb"
    quick = (1600, 7)
    thorough = (40000, 10)

    def setup(self):
        global DStructure, PerturbStructure, BatchPerturbStructure
        from matersdk.io.publicLayer.structure import DStructure
        from matersdk.adalearn.generator.perturbation import PerturbStructure, BatchPerturbStructure

    def gen(self, r, j):
        batch = j % 2 == 1
        sys_ = [{"s": f"c14.{j}.{i}.{r.randrange(10**6)}", "z": pw.gen_z(r, nmax=5), "rot": r.random() < .5, "left": r.random() < .06}
                for i in range(r.choice([1, 2, 3]) if batch else 1)]
        if batch and len(sys_) > 1 and r.random() < .4:
            for s in sys_:
                s["z"] = sys_[0]["z"]
        return {"sys": sys_, "batch": batch, "num": (r.choice([0, 1, 2, 3, 5, 11] if not batch else [1, 2, 3, 4]) if r.random() < .985 else r.choice([12, 101])), "frac": r.choice([0, .01, .03, .1, .3]),
                "dist": r.choice([0, .01, .1, .5]), "extreme": r.random() < .6, "pre": batch and r.random() < .4, "faults": [], "draw": r.randrange(10**6),
                "missing": batch and r.random() < .1, "opts": {"bufsize": r.choice([64, 512, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["draw"] = r.randrange(10**9)
        case["extreme"] = r.random() < .7
        if case["batch"] and r.random() < .8:
            f = (fl.crash if r.random() < .5 else fl.hard)(r, info["phases"].get("batch0", {}).get("c") or {}, fl.MUTATE + fl.READS)
            case["faults"] = [f] if f else []
        return case

    def run(self, sim, case):
        try:
            self._run(sim, case)
        finally:
            sim.log.append("draws " + " ".join(f"{x:.17g}" for x in (self.dr.u + self.dr.g)[:400]))

    def _run(self, sim, case):
        os_ = [Orig(p) for p in case["sys"]]
        left = any(p["left"] for p in case["sys"])
        with Draws(case["draw"], case["extreme"]) as dr:
            self.dr = dr
            if not case["batch"]:
                o = os_[0]
                st = DStructure(lattice=o.box, species=[pw.ELEMENTS[z] for z in o.z], coords=o.frac)
                out = sim.call(lambda: PerturbStructure(st).perturb(case["num"], case["frac"], case["dist"]), name="perturb")
                if out.kind != "ok":
                    if left and out.kind == "exc":
                        return
                    if out.kind == "exc" and sim.injected:
                        if np.max(np.abs(st.lattice.matrix - o.box)) > 0 or np.max(np.abs(st.frac_coords - o.frac)) > 1e-15 or [x.specie.Z for x in st] != o.z:
                            raise Violation("input-changed", "the input structure was changed by a perturbation that failed")
                        return
                    raise Violation("raised", f"{out!r}")
                if len(out.value) != case["num"]:
                    raise Violation("count", f"{len(out.value)} structures instead of {case['num']}")
                n = len(o.z)
                known = len(dr.g) == 3 * n * case["num"]
                ids = {id(x) for x in out.value} | {id(st)}
                if len(ids) != len(out.value) + 1:
                    raise Violation("aliased", "the returned structures are not distinct objects")
                for i, s in enumerate(out.value):
                    v = np.array(dr.g[3 * n * i:3 * n * (i + 1)]).reshape(n, 3) if known else None
                    u = dr.u[6 * i:6 * i + 6] if len(dr.u) == 6 * case["num"] else None
                    e = judge(o, np.array(s.lattice.matrix), [x.specie.Z for x in s], np.array(s.frac_coords), case["frac"], case["dist"], v, 1e-10, u)
                    if e:
                        raise Violation("out-of-bounds", f"copy {i}: {e}")
                if np.max(np.abs(st.lattice.matrix - o.box)) > 0 or np.max(np.abs(st.frac_coords - o.frac)) > 1e-15 or [x.specie.Z for x in st] != o.z:
                    raise Violation("input-changed", "the input structure was changed")
                self.apart(case, [(np.array(s.lattice.matrix), np.array(s.frac_coords)) for s in out.value])
                return
            for i, o in enumerate(os_):
                if not (case["missing"] and i == len(os_) - 1):
                    sim.write(f"s{i}/atom.config", o.text())
                else:
                    os.makedirs(sim.path(f"s{i}"))
                sim.write(f"s{i}/notes", "user")
                if case["pre"]:
                    sim.write(f"s{i}/structures/0.config", "old\n" * 300)
                    sim.write(f"s{i}/structures/mine.txt", "user")
            dirs = [sim.path(f"s{i}") for i in range(len(os_))]
            for k, faults in enumerate([case["faults"], []]):
                before = sim.snapshot(".")
                del dr.g[:], dr.u[:]
                n0 = dict(sim.injected)
                out = sim.call(lambda: BatchPerturbStructure.batch_perturb(dirs, case["num"], case["frac"], case["dist"]), faults, name=f"batch{k}")
                met = {x for x in sim.injected if sim.injected[x] > n0.get(x, 0)} - {"short"}
                if out.kind == "hang":
                    raise Violation("hang", f"{out!r}")
                after = sim.snapshot(".")
                own = {f"s{i}/structures/{c}.config" for i in range(len(os_)) for c in range(case["num"])}
                for p, v in before.items():
                    if p not in own and after.get(p, 0) != v:
                        raise Violation("other-file", f"batch ({out!r}) changed or removed {p}")
                if out.kind == "crash":
                    sim.restart()
                    continue
                if out.kind == "exc":
                    if not met and not left and not case["missing"]:
                        raise Violation("raised", f"batch: {out!r}")
                    continue
                if case["missing"]:
                    raise Violation("swallowed", "batch returned although a system has no atom.config")
                if met and any(f["op"] in STRICT + ("read", "open_r") and fl.is_hard(f) for f in faults):
                    raise Violation("swallowed", f"batch returned although {faults} was met")
                new = [p for p in after if p not in before and p not in own and p not in {f"s{i}/structures" for i in range(len(os_))}]
                if new:
                    raise Violation("stray", f"batch left {new[:3]}")
                known = len(dr.g) == sum(3 * len(o.z) for o in os_) * case["num"]
                at = 0
                for i, o in enumerate(os_):
                    n = len(o.z)
                    out = []
                    for c in range(case["num"]):
                        p = f"s{i}/structures/{c}.config"
                        if p not in after:
                            raise Violation("missing", f"{p} was not written")
                        v = np.array(dr.g[at:at + 3 * n]).reshape(n, 3) if known else None
                        at += 3 * n
                        u = dr.u[6 * (i * case["num"] + c):][:6] if len(dr.u) == 6 * case["num"] * len(os_) else None
                        try:
                            b, z, fr = parse(after[p].decode())
                            e = judge(o, b, z, fr, case["frac"], case["dist"], v, 3e-6, u)
                            out.append((b, fr))
                        except (ValueError, IndexError, UnicodeDecodeError) as x:
                            e = f"malformed ({x})"
                        if e:
                            raise Violation("wrong-file", f"{p}: {e}")
                    self.apart(case, out)

    def apart(self, case, got):
        """Copies made from independent draws differ in strain and in displacements."""
        if case["extreme"]:
            return
        for (b, f), (c, g) in zip(got, got[1:]):
            if case["frac"] >= .01 and np.max(np.abs(b @ b.T - c @ c.T)) < 1e-7 or case["dist"] >= .01 and np.max(np.abs(f @ b - g @ b)) < 1e-7:
                raise Violation("repeated", "two copies have the same strain or the same displacements")

    def nontrivial(self, case, info):
        return case["extreme"] or bool(info["injected"]) or case["num"] > 1 or len(case["sys"]) > 1

    def shrink(self, case):
        for i in range(len(case["sys"])):
            if len(case["sys"]) > 1:
                yield {**case, "sys": case["sys"][:i] + case["sys"][i + 1:]}
            s = case["sys"][i]
            if len(s["z"]) > 1:
                yield {**case, "sys": case["sys"][:i] + [{**s, "z": s["z"][:1]}] + case["sys"][i + 1:]}
        if case["num"] > 1:
            yield {**case, "num": case["num"] - 1}
        for k in ("extreme", "pre"):
            if case[k]:
                yield {**case, k: False}


if __name__ == "__main__":
    driver.main(C14)
