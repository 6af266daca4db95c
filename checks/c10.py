import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, coll, collfs, faults as fl
from sim.core import Violation

STRICT = ("write", "open_w", "close_w", "fsync", "truncate")


def derived(ref, how):
    """(reference of the derived collection, function building it with the library)"""
    if how is None:
        return ref, lambda: ref.collection()
    sel = how["i"]
    import copy
    r2 = copy.copy(ref)
    for k in ("box", "frac", "force", "eatom", "e", "virial"):
        setattr(r2, k, [getattr(ref, k)[x] for x in sel])
    r2.nf = len(sel)
    if how["t"] == "slice":
        return r2, lambda: ref.collection()[sel[0]:sel[-1] + 1]
    return r2, lambda: coll.StructCollection.from_indices(ref.collection(), list(sel))


class C10(driver.Check):
    id = "C10"
    technique = "deterministic simulation: export histories with crashes, torn writes, disk faults and retries"
    real = ["matersdk.data.struct_collection", "shutil.rmtree", "numpy.save", "real files in scratch"]
    stub = ["process death (unflushed buffers lost, OS keeps what was written)", "disk faults at the os/io seam", "directory listing order"]
    rule = ("a case is a history of one to three exports of collections (whole, sliced or selected by index) into one folder that may already hold "
            "data, each with crash or fault points, then a healthy retry; non-trivial when a crash or fault fired or the folder existed; "
            "distinct by (workload, operation-log digest)")
    assumptions = ["process crash, not power loss: bytes handed to the OS before the kill survive"]
    alloc, alloc_phases = 0.12, r"export\d+"
    quick = (1000, 9)
    thorough = (20000, 14)

    def setup(self):
        coll.load()

    def gen(self, r, j):
        steps = []
        for i in range(r.choice([1, 2, 2, 3])):
            p = coll.long(r, coll.gen(r, f"c10.{j}.{i}", nf=r.choice([1, 2, 3, 4, 5, 7, 9, 12]), nmax=4), 33, 104)
            p["first0"] = r.random() < .25
            how = None
            if r.random() < .35:
                if r.random() < .5:
                    a = r.randrange(p["nf"])
                    how = {"t": "slice", "i": list(range(a, r.randint(a, p["nf"] - 1) + 1))}
                else:
                    how = {"t": "idx", "i": [r.randrange(p["nf"]) for _ in range(r.randint(1, p["nf"]))]}
            nf = len(how["i"]) if how else p["nf"]
            steps.append({"p": p, "how": how, "size": r.choice([1, 2, 3, nf, max(1, nf - 1), nf + 2, 5]), "faults": []})
        pre = r.choice([None, None, "empty", "junk", "nested"])
        return {"steps": steps, "pre": pre, "deep": r.random() < .3, "slash": r.random() < .2,
                "opts": {"order": r.randrange(10**6), "bufsize": r.choice([64, 256, 1024, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        hit = False
        for i, s in enumerate(case["steps"]):
            c = info["phases"].get(f"export{i}", {}).get("c") or {}
            if c and (r.random() < .7 or (i == len(case["steps"]) - 1 and not hit)):
                f = (fl.crash if r.random() < .55 else fl.hard)(r, c)
                if f:
                    s["faults"].append(f)
                    hit = True
        return case

    def run(self, sim, case):
        out = "deep/er/out" if case["deep"] else "out"
        outside = ["out2/set.000/cell.npy", "out.bak", "set.000/keep.npy", "deep/keep", "type.raw"]
        for p in outside:
            sim.write(p, f"user {p}\n")
        if case["pre"]:
            os.makedirs(sim.path(out), exist_ok=True)
            for p in {"empty": [], "junk": ["set.000/cell.npy", "set.017/cell.npy", "notes", "type.raw"],
                      "nested": ["a/b/c/d", "set.000/x/y"]}[case["pre"]]:
                sim.write(os.path.join(out, p), "old " + p)
        last = case["steps"][-1]
        for i, s in enumerate(case["steps"] + [{**last, "faults": []}]):
            ref, build = derived(coll.Ref(s["p"]), s["how"])
            n0 = dict(sim.injected)
            o = sim.call(lambda: build().to(sim.path(out) + ("/" if case["slash"] else ""), s["size"]), s["faults"], name=f"export{i}")
            if o.kind == "hang":
                raise Violation("hang", str(o.exc))
            for p in outside:
                if sim.snapshot(os.path.dirname(p) or ".").get(os.path.basename(p)) != f"user {p}\n".encode():
                    raise Violation("outside", f"export {i} ({o!r}) changed or removed {p} outside the target")
            top = set(os.listdir(sim.path("."))) - {"deep", "out", "out2", "out.bak", "set.000", "type.raw"}
            if top and o.kind == "ok":
                raise Violation("stray", f"export {i} left {sorted(top)[:3]} outside the target")
            met = {k for k in sim.injected if sim.injected[k] > n0.get(k, 0)} - {"short"}
            if o.kind == "ok":
                e = collfs.collection_differs(ref, sim.snapshot(out), s["size"])
                if e:
                    raise Violation("wrong-image", f"export {i} returned but {e}")
                if met and any(f["op"] in STRICT and fl.is_hard(f) for f in s["faults"]):
                    raise Violation("swallowed", f"export {i} returned although {s['faults']} was met")
            elif o.kind == "exc" and not met:
                raise Violation("raised", f"export {i} without a fault: {o!r}")
            if o.kind == "crash":
                sim.restart()

    def nontrivial(self, case, info):
        return bool(info["injected"]) or bool(case["pre"]) or len(case["steps"]) > 1

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            for c in [{**s, "faults": []}] * bool(s["faults"]) + [{**s, "how": None}] * bool(s["how"]):
                yield {**case, "steps": st[:i] + [c] + st[i + 1:]}
            if not s["how"]:
                for p in coll.shrink(s["p"]):
                    yield {**case, "steps": st[:i] + [{**s, "p": p}] + st[i + 1:]}
        for k in ("pre", "deep", "slash"):
            if case[k]:
                yield {**case, k: None}


if __name__ == "__main__":
    driver.main(C10)
