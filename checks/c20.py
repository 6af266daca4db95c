import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sim import driver, coll, desc, faults as fl
from sim.core import Violation

PATHS = ("a.pt", "b.pt")


class C20(driver.Check):
    id = "C20"
    technique = ("deterministic simulation: histories of predictions while model files are replaced, removed and truncated, under read faults, "
                 "failing allocations and replacement in mid-read, inputs and answers against the definition")
    real = ["matersdk.infer.pwmatmlff.deepmd.inference/preprocess", "matersdk.feature.deepmd.preprocess/se_pair/premise",
            "matersdk.io.publicLayer.neigh/structure", "torch's model loader", "real files in scratch"]
    stub = ["the trained network (a torch module that records its inputs and answers with numbers that identify its weights)",
            "the process that trains and replaces the model", "disk faults at the os/io seam", "failing allocations"]
    rule = ("a case is a history of predictions by one or two predictors and of replacements, removals and truncations of their model files; "
            "non-trivial when a fault or an event took effect or the history changes a model file; distinct by (workload, operation-log digest)")
    assumptions = ["the centre and neighbour elements are those of the structure, in ascending order; neighbours beyond max_num_nbrs must raise",
                   "a model replaced in place while it is read is not promised anything; replaced by rename it is the old or the new one"]
    alloc, alloc_phases = 0.2, r"infer\d+"
    quick = (220, 8)
    thorough = (6000, 14)

    def setup(self):
        global DpInfer, dm
        coll.load()
        import torch
        torch.set_num_threads(1)
        from sim import dpmodel as dm
        from matersdk.infer.pwmatmlff.deepmd.inference import DpInfer

    def gen(self, r, j):
        c = coll.gen(r, f"c20.{j}", nf=r.choice([1, 2, 3]), nmax=r.choice([2, 3, 4]))
        if r.random() < .5:
            c["origin"] = r.randrange(5)
        if r.random() < .7:
            r.shuffle(c["z"])
        zs = sorted(set(c["z"]))
        preds = []
        for _ in range(r.choice([1, 2, 2])):
            rc = round(r.uniform(1.6, 4.4), 3)
            preds.append({"path": r.choice(PATHS), "rcut": rc, "rs": round(r.uniform(.3, .95) * rc, 3), "scal": r.choice([[3, 3, 3], [3, 3, 3], [3, 3, 1]]),
                          "more": [r.choice([0, 1, 5] if r.random() < .95 else [-1]) for _ in zs],
                          "avg": [[round(r.uniform(-1, 1), 3) for _ in range(4)] for _ in zs],
                          "std": [[round(r.uniform(.01, 2), 3) for _ in range(4)] for _ in zs]})
        steps = [{"t": "model", "path": p, "w": i + 1, "how": "new"} for i, p in enumerate(sorted({q["path"] for q in preds}))]
        w = 10
        for _ in range(r.choice([1, 2, 3, 4])):
            x = r.random()
            if x < .35 and len(steps) > 2:
                w += 1
                steps.append({"t": "model", "path": r.choice(preds)["path"], "w": w, "how": r.choice(["rename", "inplace"])})
            elif x < .45 and len(steps) > 2:
                steps.append({"t": "cut", "path": r.choice(preds)["path"], "at": r.choice([r.random(), 1 - r.random() ** 6, r.random() ** 6, "1", "0"])})
            elif x < .5 and len(steps) > 2:
                steps.append({"t": "rm", "path": r.choice(preds)["path"]})
            steps.append({"t": "infer", "p": r.randrange(len(preds)), "frame": r.randrange(c["nf"]), "faults": []})
        return {"c": c, "preds": preds, "steps": steps, "opts": {}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        for i, s in enumerate(case["steps"]):
            c = info["phases"].get(f"infer{i}", {}).get("c") or {}
            if s["t"] != "infer" or not c or r.random() > .7:
                continue
            x = r.random()
            if x < .5:
                f = fl.hard(r, c, fl.READS)
            elif x < .65:
                f = fl.benign(r, c)
            else:
                q = fl.pick(r, c, tuple(c))
                f = {"op": q[0], "n": q[1], "do": "event", "ev": {"t": "swap", "path": case["preds"][s["p"]]["path"], "w": 50 + i}}
            if f:
                s["faults"].append(f)
        return case

    def run(self, sim, case):
        ref = coll.Ref(case["c"])
        zs = sorted(set(ref.z))
        cur = {}
        swapped = []

        def put(path, w, rename):
            if rename:
                sim.write(path + ".new", dm.saved(w))
                os.rename(sim.path(path + ".new"), sim.path(path))
            else:
                sim.write(path, dm.saved(w))

        def swap(ev):
            put(ev["path"], ev["w"], True)
            swapped.append(ev["w"])
            cur[ev["path"]] = ev["w"]
        sim.handlers["swap"] = swap
        preds, ps = [], []
        for q in case["preds"]:
            p = {**q, "centers": zs, "nbrs": zs}
            p["max"] = [max(a + b, 0) for a, b in zip(desc.nmax(ref, p), q["more"])]
            ps.append(p)
            preds.append(None)
        structs = ref.structs()
        states = set()
        for i, s in enumerate(case["steps"] + [{"t": "infer", "p": j, "frame": 0, "faults": []} for j in range(len(ps))]):
            if s["t"] == "model":
                put(s["path"], s["w"], s["how"] == "rename")
                cur[s["path"]] = s["w"]
            elif s["t"] == "cut":
                p = sim.path(s["path"])
                if os.path.exists(p):
                    data = sim.snapshot(".")[s["path"]]
                    n = {"1": max(0, len(data) - 1), "0": 0}.get(s["at"]) if isinstance(s["at"], str) else int(s["at"] * len(data))
                    sim.write(s["path"], data[:n])
                    cur[s["path"]] = None
                    sim.injected["truncated-file"] += 1
            elif s["t"] == "rm":
                if os.path.exists(sim.path(s["path"])):
                    os.unlink(sim.path(s["path"]))
                cur[s["path"]] = None
            else:
                states.add(self.infer(sim, case, i, s, preds, ps[s["p"]], ref, structs[s["frame"]], cur, swapped))
        return {"states": sorted(states)}

    def infer(self, sim, case, i, s, preds, p, ref, st, cur, swapped):
        if preds[s["p"]] is None:
            preds[s["p"]] = DpInfer(pt_file_path=sim.path(p["path"]), device="cpu", rcut=p["rcut"], rcut_smooth=p["rs"], davg=np.array(p["avg"]),
                                    dstd=np.array(p["std"]), center_atomic_numbers=list(p["centers"]), nbr_atomic_numbers=list(p["nbrs"]),
                                    max_num_nbrs=list(p["max"]), scaling_matrix=list(p["scal"]))
        d = preds[s["p"]]
        allowed = {cur.get(p["path"])}
        swapped.clear()
        before, files = st.as_dict(), sim.snapshot(".")
        n0 = dict(sim.injected)
        dm.SEEN.clear()
        o = sim.call(lambda: d.infer(st), s["faults"], name=f"infer{i}")
        met = {k for k in sim.injected if sim.injected[k] > n0.get(k, 0)} - {"short", "event"}
        allowed |= set(swapped)
        what = f"prediction {i} of frame {s['frame']} with {p['path']}"
        if o.kind == "hang":
            raise Violation("hang", str(o.exc))
        if st.as_dict() != before:
            raise Violation("changed", f"{what} changed the structure")
        if not swapped and sim.snapshot(".") != files:
            raise Violation("changed", f"{what} changed files")
        if o.kind != "ok":
            if not met and None not in allowed and min(p["more"]) >= 0:
                raise Violation("raised", f"{what}: {o!r}")
            return f"{o.kind}"
        if allowed == {None}:
            raise Violation("phantom", f"{what} answered although the model file is missing or truncated")
        rr = desc.rows(ref, s["frame"], p)
        if rr is not None and any(len(b[0]) > m for _, r in rr for b, m in zip(r, p["max"])):
            raise Violation("dropped", f"{what} answered although a centre has more neighbours than max_num_nbrs {p['max']}")
        n = len([z for z in ref.z if z in p["centers"]])
        got = o.value
        ok = None
        for w in allowed - {None}:
            want = dm.answer(float(w), n)
            try:
                if len(got) == 4 and all(np.size(a) == np.size(b) and np.allclose(np.ravel(a), np.ravel(b), rtol=1e-12, atol=1e-12) for a, b in zip(got, want)) \
                        and np.shape(got[3]) == (3, 3):
                    ok = w
            except (TypeError, ValueError):
                pass
        if ok is None:
            raise Violation("wrong-answer", f"{what}: {got!r} is not the answer of the model in the file (weight {sorted(map(str, allowed))})"[:400])
        seen = [x for x in dm.SEEN if x["w"] == ok]
        if not seen or any(x["w"] not in allowed for x in dm.SEEN):
            raise Violation("wrong-model", f"{what} evaluated the models {[x['w'] for x in dm.SEEN]}, the file holds {sorted(map(str, allowed))}")
        x = seen[-1]
        if x["training"]:
            raise Violation("wrong-mode", f"{what}: the model was in training mode")
        if list(np.ravel(x["natoms"])) != [ref.n] + [ref.z.count(z) for z in p["centers"]]:
            raise Violation("wrong-input", f"{what}: atom counts {x['natoms'].tolist()}, the structure has {ref.z} ")
        want = desc.expected(ref, s["frame"], p, np.array(p["avg"]), np.array(p["std"]))
        if want is None:
            return "close"
        rc, r, rd, ng = (np.asarray(x[k], dtype=float) for k in ("rc", "r", "rd", "neigh"))
        m = (1, len(want), sum(p["max"]))
        if rc.shape != m + (3,) or r.shape != m + (4,) or rd.shape != m + (4, 3) or ng.shape != m:
            raise Violation("wrong-input", f"{what}: shapes {rc.shape} {r.shape} {rd.shape} {ng.shape} for {m}")
        full = np.concatenate([rc, r, rd.reshape(m + (12,)), ng[..., None]], axis=3)[0]
        for name, a, b in (("relative coordinates", 0, 3), ("normalised features", 3, 7), ("scaled derivatives", 7, 19), ("neighbour indices", 19, 20),
                           ("coordinates, features, derivatives and indices together", 0, 20)):
            e = desc.differ(full[:, :, a:b], [[y[:, a:b] for y in row] for row in want], p, name)
            if e:
                raise Violation("wrong-input", f"{what}: {e}")
        return "ok"

    def nontrivial(self, case, info):
        return bool(info["injected"]) or sum(s["t"] == "infer" for s in case["steps"]) > 1

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            if s.get("faults"):
                yield {**case, "steps": st[:i] + [{**s, "faults": []}] + st[i + 1:]}
        c = case["c"]
        if c["nf"] > 1 and all(s.get("frame", 0) == 0 for s in st):
            yield {**case, "c": {**c, "nf": 1}}
        if c.get("origin") is not None:
            yield {**case, "c": {k: v for k, v in c.items() if k != "origin"}}


if __name__ == "__main__":
    driver.main(C20)
