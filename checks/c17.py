import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hashlib, json, subprocess
import numpy as np
from sim import driver, core, readers, writers, coll, ds, pwfiles as pw
from sim.core import HarnessError, Sim, Violation

NSEED = 3                                   # simulated processes per case besides the worker itself


def canon(x):
    """A text that is equal exactly when two results are equal, order included."""
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ["df", [str(c) for c in x.columns], canon(x.to_numpy())]
    if isinstance(x, np.ndarray):
        return ["arr", str(x.dtype), list(x.shape), hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]]
    if isinstance(x, dict):
        return ["dict", [[canon(k), canon(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, bytes):
        return hashlib.sha256(x).hexdigest()[:16]
    if x is None or isinstance(x, str):
        return x
    if type(x).__name__ == "InfoSet":
        return ["infoset", x.formula, canon(x.formula_dict), [canon(np.asarray(getattr(x, k))) for k in ("box", "types", "coord", "etot", "fatom")]]
    if hasattr(x, "lattice") and hasattr(x, "site_properties"):
        return ["structure", canon(np.asarray(x.lattice.matrix)), [q.specie.symbol for q in x], canon(np.asarray(x.frac_coords)),
                sorted((k, canon(np.asarray(v, dtype=float))) for k, v in x.site_properties.items())]
    return type(x).__name__                   # nothing known to compare


def load():
    global InfoSets, perturb_structure, DStructure
    readers.load()
    writers.load()
    coll.load()
    from matersdk.data.infosets import InfoSets
    import matersdk.adalearn.generator.perturbation as P
    from matersdk.io.publicLayer.structure import DStructure
    globals()["P"] = P


def operation(sim, case):
    """The operation under test; returns (canonical result, description of a wrong value or None)."""
    op = case["op"]
    if op == "read":
        f = case["f"]
        readers.side(sim)
        p = sim.write("f", readers.text(f))
        o = sim.call(lambda: readers.read(f, p), name="read")
        if o.kind != "ok":
            return f"raised {type(o.exc).__name__}", f"{f['k']} reader raised {o!r}"
        return canon(o.value), readers.differs(f, o.value)
    if op == "dataset":
        ds.write_tree(sim, case["tree"])
        os.mkdir(sim.path("out"))

        def go():
            s = InfoSets.from_dir(sim.path("in"), "MOVEMENT", "pwmat/movement")
            s.to_dir(sim.path("out"), case["part"])
            return [x for x in s.infoset_lst]
        o = sim.call(go, name="dataset")
        if o.kind != "ok":
            return f"raised {type(o.exc).__name__}", f"ingest and export: {o!r}"
        return canon([o.value, sorted(sim.snapshot("out").items())]), None
    if op == "write":
        w = writers.Obj(case["w"])
        o = sim.call(lambda: w.write(w.build(), sim.path("doc")), name="write")
        if o.kind != "ok":
            return f"raised {type(o.exc).__name__}", f"writer {case['w']['k']}: {o!r}"
        s = sim.snapshot(".")
        return canon(sorted(s.items())), w.differs(s["doc"])
    ref = coll.Ref(case["p"])
    if op == "struct":
        return structural(sim, ref, case)
    if op == "coll":
        o = sim.call(lambda: ref.collection().to(sim.path("out"), 2), name="export")
    elif op == "images":
        o = sim.call(lambda: ref.collection().save_all_info(sim.path("out"), scaling_matrix=[1, 1, 1]), name="images")
    else:
        o = sim.call(lambda: coll.analyse(ref, case["fn"]), name="analyse")
    if o.kind != "ok":
        return f"raised {type(o.exc).__name__}", f"{op}: {o!r}"
    if op == "analyse":
        return canon(o.value), coll.analysis_differs(ref, case["fn"], o.value)
    return canon(sorted(sim.snapshot("out").items())), None


def structural(sim, ref, case):
    """Neighbour tables, environment features, bond angles, adjacency and k-points of one structure
    (compared between processes only; what they should be is not decided here)."""
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.feature.avg.avgangle import AvgAngle
    from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
    from matersdk.feature.graph.edge import AdjacentMatrix
    from matersdk.calculation.kpoints.kpointsSampler import KPointsSampler
    s = ref.collection().structures_lst[0]
    zs = sorted({x.specie.Z for x in s})
    a, b = zs[0], zs[-1]
    rcut = case["rcut"]

    def neighbours():
        n = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rcut, scaling_matrix=[3, 3, 3], reformat_mark=True, coords_are_cartesian=True)
        return n, [n.key_nbr_atomic_numbers, n.key_nbr_distances, n.key_nbr_coords]

    def features():
        n, _ = neighbours()
        t = DpseTildeRPairDescriptor.create("v1", structure_neighbors=n, center_atomic_number=a, nbr_atomic_number=b, rcut=rcut, rcut_smooth=rcut - .5)
        return t.get_tildeR(max_num_nbrs=200)
    res = []
    for name, fn in (("neighbours", lambda: neighbours()[1]), ("features", features),
                     ("angle", lambda: AvgAngle.get_avg_bond(neighbours()[0], a, a, b)),
                     ("adjacency", lambda: AdjacentMatrix(s, rcut, [3, 3, 3]).get_adjacent_matrix()),
                     ("kpoints", lambda: [[list(map(float, k)), int(w)] for k, w in KPointsSampler(s, np.array([2, 3, 2]), np.array([0, 0, 0])).get_kpoints()])):
        o = sim.call(fn, name=name)
        res.append([name, canon(o.value) if o.kind == "ok" else f"raised {type(o.exc).__name__}"])
    return res, None


def child():
    """A simulated process with its own hash seed: executes operations on request."""
    from sim import fs
    fs.install()
    load()
    import gc
    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w")
    for line in sys.stdin:
        case = json.loads(line)
        with Sim(case["seed"], case["opts"]) as sim:
            try:
                r = operation(sim, case)
            except Violation as v:
                r = ("violation", v.msg)
            except Exception as e:
                r = (f"harness {type(e).__name__}", str(e))
        out.write(json.dumps(r) + "\n")
        out.flush()
    os._exit(0)


class C17(driver.Check):
    id = "C17"
    technique = "deterministic simulation: every operation executed in several processes with different hash seeds, clocks and core counts, results compared"
    real = ["matersdk readers, writers, ingestion, exports and analyses", "CPython string hashing under each seed", "real files in scratch"]
    stub = ["PYTHONHASHSEED of every process", "clock", "core count and worker schedule", "write-buffer size"]
    rule = ("a case is one operation on one input executed in four simulated processes that differ in hash seed, clock, core count, schedule and "
            "buffer size; non-trivial when the result has more than one element, frame or column; distinct by (workload, log digest)")
    assumptions = ["the directory listing order is the same in all processes of a case (other orders: C01)"]
    quick = (960, 1)
    thorough = (40000, 2)

    def setup(self):
        load()
        self.kids = {}

    def kid(self, hs):
        k = self.kids.get(hs)
        if k is None or k.poll() is not None:
            if len(self.kids) > 8:
                for x in self.kids.values():
                    x.kill()
                self.kids.clear()
            e = dict(os.environ, PYTHONHASHSEED=str(hs))
            k = self.kids[hs] = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--child"], env=e, stdin=subprocess.PIPE,
                                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return k

    def gen(self, r, j):
        x = r.random()
        if x < .55:
            k = r.choice(["dos", "dos", "dos", "fat", "fat"] + readers.KINDS)
            c = {"op": "read", "f": readers.gen(r, k, f"c17.{j}")}
            if k in ("dos", "fat"):
                c["f"]["ne"] = r.choice([1, 2, 3, 4, 5])
        elif x < .7:
            c = {"op": "dataset", "tree": ds.gen_tree(r, f"c17.{j}"), "part": r.choice([1, 2, 3, 10])}
        elif x < .85:
            c = {"op": "write", "w": writers.gen(r, r.choice(writers.KINDS), f"c17.{j}")}
        else:
            op = r.choice(["coll", "coll", "images", "analyse", "struct"])
            c = {"op": op, "p": coll.gen(r, f"c17.{j}", nf=r.choice([1, 2, 3, 5]), nmax=3)}
            if op == "analyse":
                c["fn"] = coll.gen_func(r, c["p"])
            if op == "struct":
                c["rcut"] = r.choice([2.5, 3.2, 4.0])
        base = os.environ.get("VERIF_SEED", "1")
        c["hs"] = [int(hashlib.sha256(f"{base}/c17/{j % 8}/{j // 4000}/{i}".encode()).hexdigest()[:7], 16) for i in range(NSEED)]
        c["opts"] = {"order": r.randrange(10**6)}
        c["var"] = [{"t0_ns": r.choice([0, 1, 1_700_000_000]) * 10**9 + r.randrange(10**9), "cores": r.choice([1, 2, 4, 8]), "sched": r.randrange(10**6),
                     "bufsize": r.choice([64, 8192])} for _ in range(NSEED + 1)]
        return c

    def plan(self, r, case, info, k):
        if case["op"] != "read" or case["f"]["k"] not in ("dos", "fat"):
            return None
        case["seed"] = f"{case['seed']}+{k}"
        case["f"] = {**case["f"], "s": case["f"]["s"] + f"p{k}"}
        return case

    def run(self, sim, case):
        sub = {k: v for k, v in case.items() if k not in ("hs", "var", "hashseed")}
        kids = []
        for i, hs in enumerate(case["hs"]):
            k = self.kid(hs)
            try:
                k.stdin.write(json.dumps({**sub, "opts": {**case["opts"], **case["var"][i + 1]}}) + "\n")
                k.stdin.flush()
            except OSError:
                raise HarnessError("a simulated process ended")
            kids.append(k)
        sim.clock_ns = case["var"][0]["t0_ns"]
        sim.cores, sim.bufsize = case["var"][0]["cores"], case["var"][0]["bufsize"]
        mine, bad = operation(sim, case)
        mine = json.loads(json.dumps(mine))
        for i, k in enumerate(kids):
            try:
                line = k.stdout.readline()
            except core.SimHang:
                k.kill()
                raise
            if not line:
                raise HarnessError("a simulated process ended")
            got, gbad = json.loads(line)
            if isinstance(got, str) and got.startswith("harness"):
                raise HarnessError(f"{got}: {gbad}")
            sim.log.append(f"process {i} {hashlib.sha256(json.dumps(got).encode()).hexdigest()[:12]}")
            sim.injected["hash-seed"] += 1
            if gbad and not bad:
                bad = f"process with hash seed {case['hs'][i]}: {gbad}"
            if got != mine:
                a, b = json.dumps(mine), json.dumps(got)
                n = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), 0)
                self.drain(kids[i + 1:])
                raise Violation("differs", f"{case['op']} {case.get('f', {}).get('k', '')}: hash seed {case['hs'][i]} gives ...{b[max(0, n - 60):n + 60]}, "
                                f"hash seed {os.environ.get('PYTHONHASHSEED')} gives ...{a[max(0, n - 60):n + 60]}")
        if bad:
            raise Violation("wrong-value", bad)

    @staticmethod
    def drain(kids):
        for k in kids:
            k.stdout.readline()

    def nontrivial(self, case, info):
        return True

    def shrink(self, case):
        if "f" in case:
            for f in readers.shrink(case["f"]):
                yield {**case, "f": f}
        if "tree" in case:
            for t in ds.shrink_tree(case["tree"]):
                yield {**case, "tree": t}
        if "w" in case:
            for w in writers.shrink(case["w"]):
                yield {**case, "w": w}
        if "p" in case:
            for p in coll.shrink(case["p"]):
                yield {**case, "p": p}
        for i in range(len(case["hs"])):
            if len(case["hs"]) > 1:
                yield {**case, "hs": case["hs"][:i] + case["hs"][i + 1:], "var": case["var"][:i + 1] + case["var"][i + 2:]}


if __name__ == "__main__":
    if "--child" in sys.argv:
        child()
    driver.main(C17)
