import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sim import driver, coll, desc, faults as fl
from sim.core import Violation


def stats(ref, p):
    """Averages and deviations from the definition, or None if a distance is too close to a cutoff."""
    avg, std = [], []
    for zc in p["centers"]:
        s1 = s2 = a1 = a2 = 0.0
        n = 0
        for i in p["idx"]:
            im, x = ref.images(i, p["scal"]), ref.cart(i)
            for c in range(ref.n):
                if ref.z[c] != zc:
                    continue
                n += sum(p["max"])
                for a in range(ref.n):
                    if ref.z[a] not in p["nbrs"]:
                        continue
                    v = x[a] + im - x[c]
                    d = np.linalg.norm(v, axis=1)
                    if a == c:
                        v, d = v[d > 1e-9], d[d > 1e-9]
                    if np.any(np.abs(d - p["rcut"]) < 1e-7) or np.any(d < 1e-3):
                        return None
                    v, d = v[d < p["rcut"]], d[d < p["rcut"]]
                    u = (d - p["rs"]) / (p["rcut"] - p["rs"])
                    s = np.where(d > p["rs"], u ** 3 * (-6 * u ** 2 + 15 * u - 10) + 1, 1) / d
                    t = (s / d)[:, None] * v
                    s1, s2, a1, a2 = s1 + s.sum(), s2 + (s ** 2).sum(), a1 + t.sum() / 3, a2 + (t ** 2).sum() / 3

        def dev(q2, q1):
            return max(np.sqrt(max(q2 / n - (q1 / n) ** 2, 0)), 1e-2)
        avg.append([s1 / n, 0, 0, 0])
        std.append([dev(s2, s1)] + [dev(a2, a1)] * 3)
    return np.array(avg), np.array(std)


FIELDS = ("rcut", "rcut_smooth", "center_atomic_numbers", "nbr_atomic_numbers", "max_num_nbrs", "scaling_matrix", "davgs", "dstds")


def values(t):
    return {k: np.array(getattr(t, k)) for k in FIELDS}


def differs(got, want):
    for k in FIELDS:
        if got[k].shape != want[k].shape or not np.array_equal(got[k], want[k]):
            return f"{k} is {got[k].tolist()}, not {want[k].tolist()}"


class C19(driver.Check):
    id = "C19"
    technique = "deterministic simulation: statistics computed, saved and loaded over a faulty, crashing, truncating disk, against the definition"
    real = ["matersdk.feature.deepmd.preprocess/se_pair/premise", "matersdk.io.publicLayer.neigh/structure", "h5py and the HDF5 library", "real files in scratch"]
    stub = ["the device below HDF5 (h5py file-object driver onto the simulated disk)", "process death", "disk faults at the os/io seam", "failing allocations"]
    rule = ("a case is a history of statistics computed from selected frames and saved into one path, each with crash or fault points, loads under "
            "faults, truncated loads and a healthy retry; non-trivial when a fault, crash or truncation took effect or the path held something; "
            "distinct by (workload, operation-log digest)")
    assumptions = ["process crash, not power loss: bytes handed to the OS before the kill survive",
                   "the HDF5 library writes through the file-object driver in the order in which it writes to a POSIX file",
                   "an interrupted (not killed) save may leave anything: only the exception is promised"]
    alloc, alloc_phases = 0.2, r"(stats|save|load)\d+"
    quick = (150, 10)
    thorough = (8000, 16)

    def setup(self):
        global N
        from sim import h5
        h5.install()
        coll.load()
        import matersdk.feature.deepmd.preprocess as N

    def gen(self, r, j):
        steps = []
        for i in range(r.choice([1, 1, 2, 3])):
            c = coll.gen(r, f"c19.{j}.{i}", nf=r.choice([1, 2, 3, 4]), nmax=3)
            zs = sorted(set(c["z"]))
            if r.random() < .4:
                r.shuffle(zs)
            rc = round(r.uniform(2.2, 4.2), 3)
            ce = list(zs)
            if r.random() < .4:
                ce = r.sample(zs, r.randint(1, len(zs)))
            steps.append({"c": c, "p": {"centers": ce, "nbrs": zs, "rcut": rc, "rs": round(r.uniform(.3, .95) * rc, 3), "scal": [3, 3, 3],
                                        "idx": [r.randrange(c["nf"]) for _ in range(r.choice([1, 2, 3]))], "more": [r.choice([0, 1, 7]) for _ in zs]},
                          "faults": [], "rfaults": [], "cut": None})
        return {"steps": steps, "pre": r.choice([None, None, "junk", "empty"]), "opts": {"bufsize": r.choice([256, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        for i, s in enumerate(case["steps"]):
            c = info["phases"].get(f"save{i}", {}).get("c") or {}
            if r.random() < .7:
                x = r.random()
                f = fl.crash(r, c) if x < .45 else fl.hard(r, c) if x < .9 else fl.benign(r, c)
                if f:
                    s["faults"].append(f)
            c = info["phases"].get(f"load{i}", {}).get("c") or {}
            if r.random() < .5 and c:
                f = fl.hard(r, c, fl.READS) if r.random() < .7 else fl.benign(r, c)
                if f:
                    s["rfaults"].append(f)
            if r.random() < .5:
                s["cut"] = r.choice([r.random(), 1 - r.random() ** 6, r.random() ** 6, "1"])
        return case

    def run(self, sim, case):
        if case["pre"]:
            sim.write("n.hdf5", "" if case["pre"] == "empty" else "not an HDF5 file " * 400)
        sim.write("other.hdf5", "user file")
        out = sim.path("n.hdf5")
        steps = case["steps"] + [{**case["steps"][-1], "faults": [], "rfaults": [], "cut": None}]
        states = set()
        for i, s in enumerate(steps):
            ref = coll.Ref(s["c"])
            p = dict(s["p"])
            p["max"] = [a + b for a, b in zip(desc.nmax(ref, p), p["more"])]
            c = ref.collection()

            def met(n0):
                return {k for k in sim.injected if sim.injected[k] > n0.get(k, 0)} - {"short"}

            n0 = dict(sim.injected)
            o = sim.call(lambda: N.TildeRNormalizer.from_dp_labeled_system(
                dp_labeled_system=c, structure_indices=list(p["idx"]), rcut=p["rcut"], rcut_smooth=p["rs"], center_atomic_numbers=list(p["centers"]),
                nbr_atomic_numbers=list(p["nbrs"]), max_num_nbrs=list(p["max"]), scaling_matrix=list(p["scal"])), None, name=f"stats{i}")
            if o.kind != "ok":
                if not met(n0):
                    raise Violation("raised", f"statistics {i}: {o!r}")
                if o.kind == "crash":
                    sim.restart()
                continue
            t = o.value
            want = {"rcut": p["rcut"], "rcut_smooth": p["rs"], "center_atomic_numbers": p["centers"], "nbr_atomic_numbers": p["nbrs"],
                    "max_num_nbrs": p["max"], "scaling_matrix": p["scal"]}
            want = {k: np.array(v) for k, v in want.items()}
            got = values(t)
            w = stats(ref, p) if sum(p["max"]) else None
            if w is not None:
                for k, x in zip(("davgs", "dstds"), w):
                    if got[k].shape != x.shape or not np.allclose(got[k], x, rtol=1e-8, atol=1e-10):
                        raise Violation("wrong-statistics", f"{k} of frames {p['idx']} is {got[k].tolist()}, the definition gives {x.tolist()}")
            want.update({k: got[k] for k in ("davgs", "dstds")})
            e = differs(got, want)
            if e:
                raise Violation("wrong-statistics", e)
            before = sim.snapshot(".").get("n.hdf5")
            n0 = dict(sim.injected)
            o = sim.call(lambda: t.to(out), s["faults"], name=f"save{i}")
            if o.kind == "hang":
                raise Violation("hang", str(o.exc))
            m = met(n0)
            if o.kind == "exc" and not m:
                raise Violation("raised", f"save {i} without a fault: {o!r}")
            if o.kind == "ok" and m and any(f["op"] in ("write", "open_w", "close_w", "truncate") and fl.is_hard(f) for f in s["faults"]):
                raise Violation("swallowed", f"save {i} returned although {s['faults']} was met")
            if o.kind == "crash":
                sim.restart()
            if sim.snapshot(".").get("other.hdf5") != b"user file":
                raise Violation("outside", f"save {i} changed a file other than its target")
            clean = o.kind == "crash" and not m & {"MemoryError", "KeyboardInterrupt"}
            if os.path.exists(out) and (o.kind == "ok" or clean):
                n1 = dict(sim.injected)
                v = sim.call(lambda: N.TildeRNormalizer.from_file(out), None, name=f"load{i}")
                if o.kind == "ok" and v.kind != "ok" and not met(n1):
                    raise Violation("unreadable", f"save {i} returned but loading gives {v!r}")
                states.add(f"{o.kind}/{v.kind}")
                if v.kind == "ok":
                    e = differs(values(v.value), want)
                    if e and not (clean and sim.snapshot(".").get("n.hdf5") == before):
                        raise Violation("wrong-table", f"after save {i} ({o!r}): {e}")
                    if o.kind == "ok" and not e:
                        self.same(sim, t, v.value, c.structures_lst[p["idx"][0]], i)
                        if w is not None:
                            self.exact(sim, v.value, c, ref, p, i)
                if s["rfaults"] and o.kind == "ok":
                    v = sim.call(lambda: N.TildeRNormalizer.from_file(out), s["rfaults"], name=f"faulty{i}")
                    states.add(f"faulty/{v.kind}")
                    if v.kind == "ok":
                        e = differs(values(v.value), want)
                        if e:
                            raise Violation("wrong-load", f"load {i} under {s['rfaults']}: {e}")
            if s["cut"] is not None and o.kind == "ok":
                data = sim.snapshot(".")["n.hdf5"]
                n = max(0, len(data) - 1) if s["cut"] == "1" else int(s["cut"] * len(data))
                sim.write("cut.hdf5", data[:n])
                sim.injected["truncated-file"] += 1
                v = sim.call(lambda: N.TildeRNormalizer.from_file(sim.path("cut.hdf5")), None, name=f"cut{i}")
                states.add(f"cut/{v.kind}")
                if v.kind == "ok":
                    e = differs(values(v.value), want)
                    if e:
                        raise Violation("wrong-cut", f"file cut to {n} of {len(data)} bytes loads: {e}")
        return {"states": sorted(states)}

    @staticmethod
    def same(sim, a, b, s, i):
        """The loaded object normalises a structure as the saved one (up to the rounding of one
        evaluation to the next: numpy's vector loops depend on the alignment of the arrays)."""
        x = sim.call(lambda: a.normalize(s), None, name=f"use{i}")
        y = sim.call(lambda: b.normalize(s), None, name=f"reuse{i}")
        if x.kind != y.kind or x.kind == "ok" and not all(np.shape(u) == np.shape(v) and np.allclose(u, v, rtol=1e-9, atol=1e-9, equal_nan=True) for u, v in zip(x.value, y.value)):
            raise Violation("wrong-use", f"the loaded statistics normalise differently: {x!r} / {y!r}"[:300])

    @staticmethod
    def exact(sim, t, c, ref, p, i):
        k = (i * 7 + len(p["idx"])) % ref.nf
        want = desc.expected(ref, k, p, t.davgs, t.dstds)
        if want is None:
            return
        n0 = sum(sim.injected.values())
        o = sim.call(lambda: t.normalize(c.structures_lst[k]), None, name=f"apply{i}")
        if o.kind != "ok":
            if sum(sim.injected.values()) == n0:
                raise Violation("raised", f"normalising frame {k}: {o!r}")
            return
        f, g = (np.asarray(x, dtype=float) for x in o.value)
        want = [[x[:, 3:19] for x in row] for row in want]
        if f.ndim != 3 or f.shape[2] != 4 or g.shape != f.shape + (3,):
            raise Violation("wrong-use", f"features have shape {f.shape}, derivatives {g.shape}")
        e = desc.differ(f, [[x[:, :4] for x in row] for row in want], p, "normalised features") or \
            desc.differ(np.concatenate([f, g.reshape(f.shape[:2] + (12,))], axis=2), want, p, "scaled derivatives")
        if e:
            raise Violation("wrong-use", f"frame {k}: {e}")

    def nontrivial(self, case, info):
        return bool(info["injected"]) or bool(case["pre"]) or len(case["steps"]) > 1

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            for k, z in (("faults", []), ("rfaults", []), ("cut", None)):
                if s[k]:
                    yield {**case, "steps": st[:i] + [{**s, k: z}] + st[i + 1:]}
            if len(s["p"]["idx"]) > 1:
                yield {**case, "steps": st[:i] + [{**s, "p": {**s["p"], "idx": s["p"]["idx"][:1]}}] + st[i + 1:]}
        if case["pre"]:
            yield {**case, "pre": None}


if __name__ == "__main__":
    driver.main(C19)
