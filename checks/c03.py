import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, ds, faults as fl, pwfiles as pw
from sim.core import Violation


class C03(driver.Check):
    id = "C03"
    technique = "deterministic simulation: export histories with crashes, torn writes, faults and retries"
    real = ["matersdk.data.infosets", "matersdk.data.infoset", "numpy.save", "real files in scratch"]
    stub = ["process death (unflushed buffers lost, OS keeps what was written)", "disk faults at the os/io seam"]
    rule = ("a case is a history of exports of up to two datasets into one folder that may already hold data, each with crash "
            "and fault points; non-trivial when a crash or fault fired or a name clash occurred; distinct by (workload, operation-log digest)")
    assumptions = ["process crash, not power loss: bytes handed to the OS before the kill survive"]
    alloc, alloc_phases = 0.12, r"export\d+"
    quick = (420, 12)
    thorough = (25000, 16)

    def setup(self):
        global InfoSets
        from matersdk.data.infosets import InfoSets

    def gen(self, r, j):
        a = ds.gen_tree(r, f"c03a.{j}", nfiles=r.choice([1, 2, 3]), nmax=4)
        b = ds.gen_tree(r, f"c03b.{j}", nfiles=r.choice([1, 2]), nmax=4)
        if r.random() < .5:            # same compositions, other values
            for f, g in zip(b["files"], a["files"]):
                f["t"]["z"] = list(g["t"]["z"])
        pre = []
        for _ in range(r.randrange(3)):
            pre.append([r.choice(["notes.txt", "Xx1/type_map.raw", "part.000/box.npy", "type_map.raw", "keep/me"]), r.randrange(99)])
        if r.random() < .3:            # something of the user's under a name the export wants
            pre.append([r.choice(["@dir", "@dir/type_map.raw", "@dir/part.000/box.npy", "@dir/part.001/etot.npy", "@dir/part.007/coord.npy",
                                  "@file"]), r.randrange(99)])
        steps = [{"d": r.choice("ab"), "part": r.choice([0, 1, 2, 3]), "faults": []} for _ in range(r.choice([1, 2, 2, 3]))]
        return {"a": a, "b": b, "pre": pre, "steps": steps, "retry": True,
                "opts": {"order": r.randrange(10**6), "bufsize": r.choice([64, 256, 1024, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        hit = False
        for i, s in enumerate(case["steps"]):
            c = info["phases"].get(f"export{i}", {}).get("c") or {}
            s["faults"] = []
            if c and (r.random() < .7 or (i == len(case["steps"]) - 1 and not hit)):
                f = (fl.crash if r.random() < .6 else fl.hard)(r, c)
                if f:
                    s["faults"].append(f)
                    hit = True
        return case

    def run(self, sim, case):
        sets = {}
        for d in "ab":
            ds.write_tree(sim, case[d], "in" + d)
            o = sim.call(lambda: InfoSets.from_dir(sim.path("in" + d), "MOVEMENT", "pwmat/movement"), name="ingest" + d)
            if o.kind != "ok":
                raise Violation("raised", f"ingest failed: {o!r}")
            sets[d] = o.value
        os.mkdir(sim.path("out"))
        names = {d: [s.formula for s in sets[d].infoset_lst] for d in "ab"}
        for p, x in case["pre"]:
            p = p.replace("@dir", names["a"][x % len(names["a"])]).replace("@file", names["a"][x % len(names["a"])])
            full = sim.path("out", p)
            if not os.path.exists(full):
                try:
                    if os.path.basename(p) == names["a"][x % len(names["a"])] and case["pre"][-1][0] == "@dir":
                        os.makedirs(full)
                    else:
                        sim.write(os.path.join("out", p), f"user data {x}\n" * (x % 5 + 1))
                except (FileExistsError, NotADirectoryError):
                    pass
        done = set()
        own = set()
        retries = [{"d": s["d"], "part": s["part"], "faults": []} for s in case["steps"]] if case["retry"] else []
        for i, s in enumerate(case["steps"] + retries):
            before = sim.snapshot("out")
            ins = {d: sim.snapshot("in" + d) for d in "ab"}
            clash = [f for f in names[s["d"]] if f in before]
            part = s["part"] or False
            st = sets[s["d"]]
            o = sim.call(lambda: st.to_dir(sim.path("out"), part), s["faults"], name=f"export{i}")
            if o.kind == "hang":
                raise Violation("hang", str(o.exc))
            after = sim.snapshot("out")
            for p, v in before.items():
                if p.split("/")[0] in own:      # temporary entry of an interrupted export, under no data set's name
                    continue
                if p not in after:
                    raise Violation("destroyed", f"step {i} ({o!r}) removed {p}")
                if after[p] != v:
                    raise Violation("overwritten", f"step {i} ({o!r}) changed {p}")
            for f in clash:
                new = [p for p in after if p not in before and (p == f or p.startswith(f + "/"))]
                if new:
                    raise Violation("mixed", f"step {i} ({o!r}) added {new[:3]} to the existing {f}")
            alien = [p for p in after if p not in before and p.split("/")[0] not in names[s["d"]]
                     and not (o.kind != "ok" and "/" not in p)]
            if alien and o.kind == "ok":
                raise Violation("stray", f"step {i} created {alien[:3]}")
            if any(sim.snapshot("in" + d) != ins[d] for d in "ab"):
                raise Violation("side-effect", "export changed the input tree")
            if o.kind == "ok":
                if clash:
                    raise Violation("clash-accepted", f"step {i} returned although {clash} existed")
                ds.check_export(case[s["d"]], st, sim.path("out"), part, only=set(names[s["d"]]))
                done.add((s["d"], s["part"]))
            elif o.kind == "exc" and not clash and not any(k != "short" for k in sim.injected):
                raise Violation("raised", f"export without clash or fault failed: {o!r}")
            if o.kind != "ok":
                own |= {p.split("/")[0] for p in after if p not in before} - {f for d in "ab" for f in names[d]}
            if o.kind == "crash":
                sim.restart()

    def nontrivial(self, case, info):
        return bool(info["injected"]) or bool(case["pre"]) or len(case["steps"]) > 1

    def shrink(self, case):
        for i in range(len(case["steps"])):
            if len(case["steps"]) > 1:
                yield {**case, "steps": case["steps"][:i] + case["steps"][i + 1:]}
        if case["retry"]:
            yield {**case, "retry": False}
        for i in range(len(case["pre"])):
            yield {**case, "pre": case["pre"][:i] + case["pre"][i + 1:]}
        for d in "ab":
            for t in ds.shrink_tree(case[d]):
                yield {**case, d: t}


if __name__ == "__main__":
    driver.main(C03)
