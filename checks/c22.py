import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sim import coll, collfs, driver, ds, faults as fl, pwfiles as pw, readers, threads, writers
from sim.core import Violation

READ = ["mv", "mv1", "ac", "dstruct", "inkpt", "report", "fermi", "dos", "fat", "infoset", "mvt", "kmesh"]


class C22(driver.Check):
    id = "C22"
    technique = ("deterministic simulation: concurrent callers interleaved by a seeded scheduler at every file operation and library line, each "
                 "result against what the operation gives alone")
    real = ["matersdk.io.pwmat readers", "matersdk.data.infosets / infoset / struct_collection", "matersdk.io.publicLayer.structure", "writers of input files",
            "real files in scratch"]
    stub = ["thread scheduling (baton passing, seeded)", "disk faults at the os/io seam", "garbage collection (off while tasks run)"]
    rule = ("a case is two to five tasks (reads, ingestions, exports, writes; on shared or separate files and objects), a schedule seed and its "
            "preemption rates, and at most one fault; non-trivial when at least one switch happened inside a task; distinct by "
            "(workload, log digest)")
    assumptions = ["callers are threads of one process; a switch happens at a file operation or between two lines of the library",
                   "two tasks never write the same file, except data-set exports of one composition into one folder, which must not mix"]
    quick = (600, 7)
    thorough = (20000, 12)

    def setup(self):
        global InfoSets
        threads.patch_locks()
        from matersdk.data.infosets import InfoSets
        readers.load()
        writers.load()
        coll.load()

    def gen(self, r, j):
        rk, wk = r.choice(READ), r.choice(writers.KINDS)       # often the same kinds: that is where state is shared
        docs = [readers.gen(r, rk if r.random() < .6 else r.choice(READ), f"c22.{j}.{i}") for i in range(r.choice([1, 2, 2, 3]))]
        if r.random() < .5:
            docs.append(readers.variant(r, docs[0]))
        trees = [ds.gen_tree(r, f"c22.{j}.t{i}", nfiles=r.choice([1, 1, 2]), nmax=3) for i in range(2)]
        for t in trees:
            for f in t["files"]:
                f["t"]["nf"] = min(f["t"]["nf"], 4)
        if r.random() < .5:                      # the same compositions with other values
            for f, g in zip(trees[1]["files"], trees[0]["files"]):
                f["t"]["z"] = list(g["t"]["z"])
        ws = [writers.gen(r, wk if r.random() < .8 else r.choice(writers.KINDS), f"c22.{j}.w{i}") for i in range(2)]
        cs = [coll.gen(r, f"c22.{j}.c{i}", nf=r.choice([1, 2, 3, 5]), nmax=3) for i in range(2)]
        focus = r.choice(["read", "read", "mix", "mix", "export", "write", "write", "coll", "ingest"])
        tasks = []
        for i in range(r.choice([2, 2, 3, 3, 4, 5])):
            k = r.choice(["read", "read", "ingest", "export", "write", "coll"]) if focus == "mix" or r.random() < .3 else focus
            t = {"k": k, "i": i}
            if k == "read":
                t.update(f=r.randrange(len(docs)), shared=r.random() < .3)
            elif k == "ingest":
                t.update(t=r.randrange(2), one=r.random() < .3)
            elif k == "export":
                t.update(t=r.randrange(2), dir=r.choice(["o", "o", f"o{i}"]), part=r.choice([0, 1, 2, 3]))
            elif k == "write":
                t.update(w=i % 2 if r.random() < .7 else r.randrange(2), shared=r.random() < .5)
            else:
                t.update(c=r.randrange(2), size=r.choice([1, 2, 3]), shared=r.random() < .5, pre=r.random() < .3)
            tasks.append(t)
        return {"docs": docs, "trees": trees, "ws": ws, "cs": cs, "tasks": tasks, "faults": [], "sw": self.sw(r),
                "opts": {"bufsize": r.choice([64, 256, 8192]), "order": r.randrange(10**6)}}

    def sw(self, r):
        return {"seed": r.randrange(10**9), "stay": r.choice([0, .3, .6, .9, 1]), "line": r.choice([0, 0, .002, .02, .1, .5])}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["sw"] = self.sw(r)
        if k and r.random() < .3:
            c = info["phases"].get("together", {}).get("c") or {}
            f = fl.hard(r, c, fl.MUTATE + fl.READS)
            if f and not f.get("sticky"):
                case["faults"] = [f]
        return case

    def run(self, sim, case):
        docs, tasks = case["docs"], case["tasks"]
        for i, d in enumerate(docs):
            sim.write(f"d/f{i}", readers.text(d))
        readers.side(sim)
        for i, t in enumerate(case["trees"]):
            ds.write_tree(sim, t, f"in{i}")
        os.makedirs(sim.path("o"))
        os.makedirs(sim.path("w"))
        refs = [coll.Ref(c) for c in case["cs"]]
        objs = [writers.Obj(w) for w in case["ws"]]
        held = {}

        def prepare():
            for t in tasks:
                if t["k"] == "export" and ("t", t["t"]) not in held:
                    held["t", t["t"]] = InfoSets.from_dir(sim.path(f"in{t['t']}"), "MOVEMENT", "pwmat/movement")
                if t["k"] == "read" and t["shared"] and ("f", t["f"]) not in held:
                    held["f", t["f"]] = readers.construct(docs[t["f"]], sim.path(f"d/f{t['f']}"))
                if t["k"] == "write" and t["shared"] and ("w", t["w"]) not in held and case["ws"][t["w"]]["k"] not in ("highk", "genkpt"):
                    held["w", t["w"]] = objs[t["w"]].build()
                if t["k"] == "coll" and t["shared"] and ("c", t["c"]) not in held:
                    held["c", t["c"]] = refs[t["c"]].collection()
        o = sim.call(prepare, name="prepare")
        if o.kind != "ok":
            raise Violation("raised", f"alone: {o!r}")
        for t in tasks:
            if t["k"] == "export":
                os.makedirs(sim.path(t["dir"]), exist_ok=True)
            if t["k"] == "coll" and t["pre"]:
                sim.write(f"c/out{t['i']}/set.000/cell.npy", "old")
        before = {d: sim.snapshot(d) for d in ("d", "side", "in0", "in1")}

        def body(t):
            k, i = t["k"], t["i"]
            if k == "read":
                d = docs[t["f"]]
                if t["shared"]:
                    return lambda: readers.query(d, held["f", t["f"]])
                return lambda: readers.query(d, readers.construct(d, sim.path(f"d/f{t['f']}")))
            if k == "ingest":
                return lambda: InfoSets.from_dir(sim.path(f"in{t['t']}"), "MOVEMENT", "pwmat/movement")
            if k == "export":
                a = (sim.path(t["dir"]),) + ((t["part"],) if t["part"] else ())
                return lambda: held["t", t["t"]].to_dir(*a)
            if k == "write":
                ob = objs[t["w"]]
                return lambda: ob.write(held.get(("w", t["w"])) if t["shared"] and ("w", t["w"]) in held else ob.build(), sim.path(f"w/f{i}"))
            return lambda: (held["c", t["c"]] if t["shared"] else refs[t["c"]].collection()).to(sim.path(f"c/out{i}"), t["size"])
        th = threads.Threads(sim, case["sw"]["seed"], case["sw"]["stay"], case["sw"]["line"])
        o = sim.call(lambda: th.run([body(t) for t in tasks]), case["faults"], name="together")
        if o.kind != "ok":
            raise Violation(o.kind, f"{o!r}")
        outs = o.value
        self.switched = th.switches > len(tasks)
        for d, s in before.items():
            if sim.snapshot(d) != s:
                raise Violation("side-effect", f"files below {d} were changed")
        want = {f"w/f{t['i']}" for t in tasks if t["k"] == "write"}
        stray = [p for p in sim.snapshot("w") if f"w/{p}" not in want]
        if stray and not th.hit:
            raise Violation("stray", f"files {stray[:3]} were left beside the written ones")
        forms = {t["i"]: {s.formula for s in held["t", t["t"]].infoset_lst} for t in tasks if t["k"] == "export"}
        won = {}
        for t, o in zip(tasks, outs):
            i, k = t["i"], t["k"]
            what = f"task {i} ({k})"
            rivals = [u["i"] for u in tasks if u["i"] != i and u["k"] == "export" and k == "export" and u["dir"] == t["dir"] and forms[i] & forms[u["i"]]]
            if o.kind != "ok":
                if i in th.hit or o.kind == "exc" and isinstance(o.exc, OSError) and rivals:
                    continue
                raise Violation("disturbed", f"{what} failed beside {[u['k'] for u in tasks if u is not t]}: {o!r}")
            e = None
            if k == "read":
                e = readers.differs(docs[t["f"]], o.value)
            elif k == "ingest":
                ds.check_infosets(case["trees"][t["t"]], o.value)
            elif k == "export":
                for f in forms[i]:
                    if (t["dir"], f) in won:
                        raise Violation("mixed", f"{what} and task {won[t['dir'], f]} both returned from exporting {f} into one folder")
                    won[t["dir"], f] = i
                ds.check_export(case["trees"][t["t"]], held["t", t["t"]], sim.path(t["dir"]), t["part"] or False, only=forms[i])
            elif k == "write":
                p = sim.path(f"w/f{i}")
                e = objs[t["w"]].differs(open(p, "rb").read()) if os.path.exists(p) else "no file"
            else:
                e = collfs.collection_differs(refs[t["c"]], sim.snapshot(f"c/out{i}"), t["size"])
            if e:
                raise Violation("disturbed", f"{what} beside {[u['k'] for u in tasks if u is not t]}: {e}")
        # what the tasks shared is still intact
        for (k, n), x in held.items():
            if k == "f":
                o = sim.call(lambda: readers.query(docs[n], x), name=f"after {k}{n}")
                e = readers.differs(docs[n], o.value) if o.kind == "ok" else repr(o)
                if e:
                    raise Violation("disturbed", f"a shared {docs[n]['k']} reader afterwards: {e}")
            if k == "t":
                ds.check_infosets(case["trees"][n], x)

    def nontrivial(self, case, info):
        return getattr(self, "switched", False)

    def shrink(self, case):
        for i in range(len(case["tasks"])):
            if len(case["tasks"]) > 2:
                yield {**case, "tasks": case["tasks"][:i] + case["tasks"][i + 1:]}
        if case["faults"]:
            yield {**case, "faults": []}
        for k, v in (("line", 0), ("line", .02), ("stay", 1), ("stay", .9), ("stay", 0)):
            if case["sw"][k] != v:
                yield {**case, "sw": {**case["sw"], k: v}}
        for i, t in enumerate(case["trees"]):
            for u in ds.shrink_tree(t):
                yield {**case, "trees": case["trees"][:i] + [u] + case["trees"][i + 1:]}


if __name__ == "__main__":
    driver.main(C22)
