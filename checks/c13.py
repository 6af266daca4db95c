import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gc
from sim import driver, readers
from sim.core import Violation


class C13(driver.Check):
    id = "C13"
    technique = "deterministic simulation: seeded histories of readers created, used and destroyed in any order over shared files, also in a read-only folder"
    real = ["matersdk.io.pwmat readers", "matersdk.io.publicLayer.structure", "matersdk.data.infoset", "pandas/numpy parsing", "real files in scratch"]
    stub = ["order of object creation, use and destruction (seeded)", "garbage collection points (seeded)", "write protection of the folder (EROFS at the seam)"]
    rule = ("a case is a set of files and a history of create/use/destroy steps over readers on them; checked after every step: exact values, no file created, "
            "changed or removed; non-trivial when at least two readers lived at once or one was destroyed before another was used; "
            "distinct by (workload, log digest)")
    assumptions = ["the files themselves do not change during the history (changing files: C04, C06, C07)"]
    quick = (400, 5)
    thorough = (30000, 10)

    def setup(self):
        readers.load()

    def hist(self, r, files):
        ops, live, nid = [], [], 0
        for _ in range(r.choice([4, 8, 12, 18])):
            x = r.random()
            if x < .4 or not live:
                ops.append(["new", nid, r.randrange(len(files))])
                live.append(nid)
                nid += 1
            elif x < .75:
                ops.append(["use", r.choice(live)])
            elif x < .92:
                i = r.choice(live)
                live.remove(i)
                ops.append(["del", i])
            else:
                ops.append(["gc"])
        ops += [["use", i] for i in live]
        return ops

    def gen(self, r, j):
        files = []
        n = r.choice([1, 2, 2, 3])
        for i in range(n):
            k = "dos" if (j % 2 == 0 and i == 0) or r.random() < .3 else r.choice(readers.KINDS)
            files.append(readers.gen(r, k, f"c13.{j}.{i}"))
            if r.random() < .4:
                files.append(readers.variant(r, files[-1]))
        extra = [x for x in ("f0.bak", "f1.bak", "f0.tmp", "tmp", "f0~", ".f0.swp") if r.random() < .3]
        return {"files": files, "extra": extra, "ops": self.hist(r, files), "opts": {"readonly": r.random() < .4, "bufsize": r.choice([64, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["ops"] = self.hist(r, case["files"])
        case["opts"]["readonly"] = r.random() < .4
        return case

    def run(self, sim, case):
        for i, f in enumerate(case["files"]):
            sim.write(f"d/f{i}", readers.text(f))
        for x in case["extra"]:
            sim.write("d/" + x, "user " + x)
        readers.side(sim)
        snap = sim.snapshot("d")
        side = sim.snapshot("side")
        live = {}
        for n, op in enumerate(case["ops"]):
            if op[0] == "new":
                f = case["files"][op[2]]
                o = sim.call(lambda: readers.construct(f, sim.path(f"d/f{op[2]}")), name=f"{n}:new{op[1]}")
                if o.kind != "ok":
                    raise Violation("raised", f"step {n}: {f['k']} reader: {o!r}")
                live[op[1]] = (f, o.value)
                o.value = None
                del o
            elif op[0] == "use":
                if op[1] not in live:
                    continue
                f, a = live[op[1]]
                o = sim.call(lambda: readers.query(f, a), name=f"{n}:use{op[1]}")
                del a
                if o.kind != "ok":
                    raise Violation("raised", f"step {n}: {f['k']} query: {o!r}")
                e = readers.differs(f, o.value)
                if e:
                    raise Violation("wrong-value", f"step {n}: {f['k']}: {e}")
                for t in ([] if f["k"] not in ("dos", "fat") else o.value):     # the caller may do with its tables what it wants
                    for t in t if isinstance(t, list) else [t]:
                        if hasattr(t, "iloc"):
                            t.iloc[:, :] = -1.0
                del o
            elif op[0] == "del":
                if op[1] in live:
                    sim.call(lambda: live.pop(op[1]) and None, name=f"{n}:del{op[1]}")
            else:
                sim.call(gc.collect, name=f"{n}:gc")
            if sim.snapshot("d") != snap:
                a = sim.snapshot("d")
                d = sorted(k for k in set(a) | set(snap) if a.get(k, 0) != snap.get(k, 0))
                raise Violation("trace", f"step {n} {op}: files differ: {d[:4]}")

        def end():
            live.clear()
            gc.collect()
        sim.call(end, name="end")
        if sim.snapshot("d") != snap or set(os.listdir(sim.path("."))) != {"d", "side"} or sim.snapshot("side") != side:
            raise Violation("trace", f"after the last reader was destroyed: {sorted(sim.snapshot('.'))}")

    def nontrivial(self, case, info):
        return sum(o[0] == "new" for o in case["ops"]) > 1

    def shrink(self, case):
        for i in range(len(case["ops"])):
            yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
        if case["extra"]:
            yield {**case, "extra": []}
        if case["opts"]["readonly"]:
            yield {**case, "opts": {**case["opts"], "readonly": False}}
        for i, f in enumerate(case["files"]):
            for g in readers.shrink(f):
                yield {**case, "files": case["files"][:i] + [g] + case["files"][i + 1:]}


if __name__ == "__main__":
    driver.main(C13)
