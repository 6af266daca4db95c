import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import io
import numpy as np
from sim import driver, core, faults as fl
from sim.core import Violation


def table(p):
    """(state dict as numpy arrays, expected exported table) of the generated network."""
    r = np.random.RandomState(p["seed"])
    dt = np.dtype(p["dtype"])

    def arr(shape):
        a = r.standard_normal(shape) * 10.0 ** r.randint(-6, 7)
        if p["special"]:
            f = a.reshape(-1)
            for v in (np.nan, np.inf, -0.0, 5e-324, 0.0):
                if r.rand() < .3:
                    f[r.randint(f.size)] = v
        with np.errstate(all="ignore"):
            return a.astype(dt)
    sd = {}

    def net(kind, k, sizes, res):
        for l in range(len(sizes) - 1):
            sd[f"{kind}.{k}.weights.weight{l}"] = arr((sizes[l], sizes[l + 1]))
            sd[f"{kind}.{k}.bias.bias{l}"] = arr((1, sizes[l + 1]))
            if l in res:
                sd[f"{kind}.{k}.resnet_dt.resnet_dt{l}"] = arr((1, sizes[l + 1]))
    for k in range(p["nemb"]):
        net("embedding_net", k, [1] + p["esz"], p["eres"])
    m1 = p["esz"][-1]
    for k in range(p["nfit"]):
        net("fitting_net", k, [m1 * p["m2"]] + p["fsz"], p["fres"])
    out = dict(sd)
    out["M1"], out["M2"] = m1, p["m2"]
    out["embedding_sizes"], out["fitting_sizes"] = np.array(p["esz"]), np.array(p["fsz"])
    return sd, out


def load(path):
    """The table as the library's own consumers get it: straight, and through the predictor built on it."""
    got = X.FFExtractor.get_hdf5_dict(path)
    e = FFInfer(path, 6.0, 5.0, {3: 10}, {}, {}).model_params_dict
    if set(e) != set(got) or any(np.asarray(e[k]).tobytes() != np.asarray(got[k]).tobytes() for k in got):
        return {**got, "the predictor's table": 0}
    return got


def differs(got, want):
    if set(got) != set(want):
        miss, more = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        return f"missing {miss[:3]}, additional {more[:3]}"
    for k, w in want.items():
        g = np.asarray(got[k])
        if k in ("M1", "M2") or k.endswith("_sizes"):
            if g.shape != np.shape(w) or not np.array_equal(g, w):
                return f"{k} is {g}, not {w}"
        elif g.dtype != w.dtype or g.shape != w.shape or g.tobytes() != w.tobytes():
            return f"{k} differs"
    return None


class C15(driver.Check):
    id = "C15"
    technique = "deterministic simulation: parameter export and load histories over a faulty, crashing, truncating disk"
    real = ["matersdk.infer.pwmatmlff.deepmd.extractor", "torch.load", "h5py and the HDF5 library", "real files in scratch"]
    stub = ["the device below HDF5 (h5py file-object driver onto the simulated disk)", "process death", "disk faults at the os/io seam"]
    rule = ("a case is a history of exports of generated checkpoints into one path, each with crash or fault points, a load after each, truncated "
            "loads and a healthy retry; non-trivial when a fault, crash or truncation took effect or the path held something; distinct by "
            "(workload, operation-log digest)")
    assumptions = ["process crash, not power loss: bytes handed to the OS before the kill survive",
                   "the HDF5 library writes through the file-object driver in the order in which it writes to a POSIX file"]
    alloc, alloc_phases = 0.12, r"export\d+"
    quick = (240, 8)
    thorough = (12000, 14)

    def setup(self):
        global torch, X, FFInfer
        import torch
        torch.set_num_threads(1)
        from sim import h5
        h5.install()
        import matersdk.infer.pwmatmlff.deepmd.extractor as X
        from matersdk.infer.pwmatmlff.deepmd.inference_depre import FFInfer

    def gen(self, r, j):
        def one():
            ne, nf = r.choice([1, 2, 3, 3, 4]), r.choice([1, 2, 3, 3, 4])
            t = r.choice([1, 2, 3])
            if r.random() < .08:               # numbers with two digits
                ne, nf, t = r.choice([(11, 2, 1), (2, 12, 1), (2, 2, 4), (11, 11, 2)])
            p = {"seed": r.randrange(2**31), "dtype": r.choice(["float64", "float64", "float32"]), "special": r.random() < .3,
                 "nemb": t * t, "nfit": t, "esz": [r.choice([1, 2, 3, 5, 8]) for _ in range(ne)],
                 "fsz": [r.choice([1, 2, 4, 7]) for _ in range(nf - 1)] + [1], "m2": r.choice([1, 2, 3, 5]),
                 "eres": [l for l in range(ne) if r.random() < .5], "fres": [l for l in range(nf) if r.random() < .5]}
            return {"p": p, "drop": r.random() if r.random() < .12 else None, "faults": [], "rfaults": [], "cut": None}
        return {"steps": [one() for _ in range(r.choice([1, 1, 2, 3]))], "pre": r.choice([None, None, "junk", "empty"]),
                "opts": {"bufsize": r.choice([256, 8192]), "order": r.randrange(10**6)}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        for i, s in enumerate(case["steps"]):
            if r.random() < .65:
                c = info["phases"].get(f"export{i}", {}).get("c") or {}
                x = r.random()
                if x < .45:
                    f = fl.crash(r, c)
                elif x < .85:
                    f = fl.hard(r, c, fl.MUTATE + ("read", "open_r"))
                else:
                    f = fl.benign(r, c)
                if f:
                    s["faults"].append(f)
            c = info["phases"].get(f"load{i}", {}).get("c") or {}
            if r.random() < .5 and c:
                f = fl.hard(r, c, fl.READS) if r.random() < .7 else fl.benign(r, c)
                if f:
                    s["rfaults"].append(f)
            if r.random() < .5:
                s["cut"] = r.choice([r.random(), 1 - r.random() ** 6, r.random() ** 6, "1"])
        return case

    def run(self, sim, case):
        if case["pre"]:
            sim.write("ff.hdf5", "" if case["pre"] == "empty" else "not an HDF5 file " * 400)
        sim.write("other.hdf5", "user file")
        out = sim.path("ff.hdf5")
        steps = case["steps"] + [{**case["steps"][-1], "drop": None, "faults": [], "rfaults": [], "cut": None, "last": 1}]
        pres = set()
        for i, s in enumerate(steps):
            p = s["p"]
            sd, want = table(p)
            if s["drop"] is not None:
                k = sorted(k for k in sd if "resnet" not in k)
                sd = dict(sd)
                del sd[k[int(s["drop"] * len(k))]]
            b = io.BytesIO()
            torch.save({"epoch": 3, "state_dict": {k: torch.from_numpy(v.copy()) for k, v in sd.items()}}, b)
            sim.write(f"model{i}.pt", b.getvalue())
            pt = sim.path(f"model{i}.pt")
            n0 = dict(sim.injected)
            before = sim.snapshot(".").get("ff.hdf5")

            def export():
                X.FFExtractor(pt, p["nemb"], len(p["esz"]), p["nfit"], len(p["fsz"])).save_hdf5_file(out)
            o = sim.call(export, s["faults"], name=f"export{i}")
            if o.kind == "hang":
                raise Violation("hang", str(o.exc))
            met = {k for k in sim.injected if sim.injected[k] > n0.get(k, 0)} - {"short"}
            if o.kind == "exc" and not met and s["drop"] is None:
                raise Violation("raised", f"export {i} without a fault: {o!r}")
            if o.kind == "ok":
                if s["drop"] is not None:
                    raise Violation("incomplete", f"export {i} returned although the checkpoint lacks a parameter")
                if any(f["op"] in ("write", "open_w", "close_w", "truncate") and fl.is_hard(f) for f in s["faults"]) and met:
                    raise Violation("swallowed", f"export {i} returned although {s['faults']} was met")
            if o.kind == "crash":
                sim.restart()
            if sim.snapshot(".").get(f"model{i}.pt") != b.getvalue() or sim.snapshot(".").get("other.hdf5") != b"user file":
                raise Violation("outside", f"export {i} changed a file other than its target")
            if os.path.exists(out) and (o.kind == "ok" or o.kind == "crash" and s["drop"] is None and not met & {"MemoryError", "KeyboardInterrupt"}):
                # what any later reader finds
                v = sim.call(lambda: load(out), None, name=f"load{i}")
                pres.add(f"{o.kind}/{v.kind}")
                if o.kind == "ok" and v.kind != "ok":
                    raise Violation("unreadable", f"export {i} returned but loading gives {v!r}")
                if v.kind == "ok":
                    e = differs(v.value, want)
                    if e and not (o.kind == "crash" and sim.snapshot(".").get("ff.hdf5") == before):   # killed before touching it
                        raise Violation("wrong-table", f"after export {i} ({o!r}): {e}")
                if s["rfaults"]:
                    n1 = dict(sim.injected)
                    v = sim.call(lambda: load(out), s["rfaults"], name=f"faulty{i}")
                    pres.add(f"faulty/{v.kind}")
                    if v.kind == "ok" and o.kind == "ok":
                        e = differs(v.value, want)
                        if e:
                            raise Violation("wrong-load", f"load {i} under {s['rfaults']}: {e}")
            if s["cut"] is not None and o.kind == "ok":
                data = sim.snapshot(".")["ff.hdf5"]
                n = max(0, len(data) - 1) if s["cut"] == "1" else int(s["cut"] * len(data))
                sim.write("cut.hdf5", data[:n])
                sim.injected["truncated-file"] += 1
                v = sim.call(lambda: load(sim.path("cut.hdf5")), None, name=f"cut{i}")
                pres.add(f"cut/{v.kind}")
                if v.kind == "ok":
                    e = differs(v.value, want)
                    if e:
                        raise Violation("wrong-cut", f"file cut to {n} of {len(data)} bytes loads: {e}")
                # a truncated checkpoint
                d = b.getvalue()
                sim.write("cut.pt", d[:int((0.999 if s["cut"] == "1" else s["cut"]) * len(d))])
                o2 = sim.path("fromcut.hdf5")
                v = sim.call(lambda: X.FFExtractor(sim.path("cut.pt"), p["nemb"], len(p["esz"]), p["nfit"], len(p["fsz"])).save_hdf5_file(o2), None, name=f"cutpt{i}")
                if v.kind == "ok":
                    v = sim.call(lambda: load(o2), None, name=f"cutptl{i}")
                    e = f"loading gives {v!r}" if v.kind != "ok" else differs(v.value, want)
                    if e:
                        raise Violation("wrong-checkpoint", f"checkpoint cut to {s['cut']} exported: {e}")
        return {"states": sorted(pres)}

    def nontrivial(self, case, info):
        return bool(info["injected"]) or bool(case["pre"]) or len(case["steps"]) > 1

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            for k, z in (("faults", []), ("rfaults", []), ("cut", None), ("drop", None)):
                if s[k]:
                    yield {**case, "steps": st[:i] + [{**s, k: z}] + st[i + 1:]}
            p = s["p"]
            for k, z in (("nemb", 1), ("nfit", 1), ("special", False), ("m2", 1), ("eres", []), ("fres", [])):
                if p[k] != z:
                    yield {**case, "steps": st[:i] + [{**s, "p": {**p, k: z}}] + st[i + 1:]}
            for k in ("esz", "fsz"):
                if len(p[k]) > 1:
                    yield {**case, "steps": st[:i] + [{**s, "p": {**p, k: p[k][1:]}}] + st[i + 1:]}
        if case["pre"]:
            yield {**case, "pre": None}


if __name__ == "__main__":
    driver.main(C15)
