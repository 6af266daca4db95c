import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, faults as fl, pwfiles as pw, trajfile as tf
from sim.core import Violation


class C18(driver.Check):
    id = "C18"
    technique = ("deterministic simulation: a trajectory file growing, cut off or failing under analyses that fan out to a seeded worker schedule; "
                 "results against the definition on the complete frames")
    real = ["matersdk.io.pwmat.output.movement", "matersdk.feature.avg.msd/avgbond", "matersdk.data.struct_collection", "matersdk.io.publicLayer",
            "forked worker processes"]
    stub = ["the MD code writing the trajectory", "the disk below builtins.open / os", "process-pool scheduling", "number of processor cores"]
    rule = ("a case is a trajectory file cut off at a byte, appends and read faults at numbered operations, a sequence of analyses, a core count, a "
            "schedule and failing tasks; non-trivial when the file was incomplete or grew, a fault was met or two tasks ran in a pool; distinct by "
            "(workload, log digest)")
    assumptions = ["the writer only appends; one run (restarted runs: C04)", "a worker killed outright is not covered (multiprocessing waits for ever)"]
    alloc, alloc_phases = 0.2, r"call\d+"
    quick = (420, 7)
    thorough = (9000, 14)

    def setup(self):
        tf.load()

    def gen(self, r, j):
        t = pw.gen_traj(r, f"c18.{j}", nf=r.choice([1, 2, 3, 4, 5, 7, 10]), nmax=4)
        if r.random() < .02:
            t["nf"], t["z"] = r.choice([17, 33, 65, 130]), t["z"][:2]
        n = len(pw.movement(t)[0])
        fs = [tf.gen_func(r, t, tf.FUNCS[j % len(tf.FUNCS)])] + [tf.gen_func(r, t) for _ in range(r.choice([0, 0, 1, 2]))]
        return {"t": t, "start": n, "fs": fs, "faults": [[] for _ in fs],
                "opts": {"cores": r.choice([1, 2, 3, 4, 6, 8]), "sched": r.randrange(10**6), "bufsize": r.choice([64, 300, 1024, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["opts"] = {"cores": r.choice([1, 2, 3, 3, 4, 5, 6, 8, 16, 128]), "sched": r.randrange(10**9), "bufsize": r.choice([64, 300, 1024, 8192])}
        txt, fr = pw.movement(case["t"])
        ends, p = [], 0
        for f in fr:
            p += len(f.text())
            ends.append(p)
        total = len(txt)
        m = r.random()
        if m < .25:
            case["start"] = r.choice([total, r.randrange(total + 1), r.choice(ends), max(0, r.choice(ends) - r.randrange(120))])
        elif m < .6:
            case["start"] = pos = r.choice([r.choice(ends), r.randrange(total + 1), max(0, r.choice(ends) - r.randrange(120))])
            for i in range(len(case["fs"])):
                n = max(info["phases"].get(f"call{i}", {}).get("n", 0), 5)
                for at in sorted(r.randint(1, n) for _ in range(r.choice([0, 1, 2, 3]))):
                    pos = r.choice([min(total, pos + r.randrange(1, 400)), r.randint(pos, total), total, min([e for e in ends if e > pos] or [total])])
                    case["faults"][i].append({"op": "any", "n": at, "do": "event", "ev": {"t": "append", "to": pos}})
        else:
            if r.random() < .3:
                case["start"] = r.choice(ends)
            i = r.randrange(len(case["fs"]))
            c = info["phases"].get(f"call{i}", {}).get("c") or {}
            pooled = case["fs"][i]["f"] in tf.POOLED
            if pooled and m < .75:
                case["faults"][i].append({"op": "task", "n": r.randint(1, max(1, case["t"]["nf"] - 1)), "do": "task",
                                          "exc": r.choice(["RuntimeError", "ValueError", "MemoryError", "OSError", "KeyError", "IndexError"])})
            elif pooled and m < .8:
                case["faults"][i].append({"op": "pool", "n": 1, "do": "errno", "errno": r.choice(["EAGAIN", "ENOMEM", "EMFILE"])})
            else:
                for f in (fl.hard(r, c, fl.READS), fl.benign(r, {k: v for k, v in c.items() if k == "read"})):
                    if f and (f["do"] != "short" or r.random() < .5):
                        case["faults"][i].append(f)
        return case

    def run(self, sim, case):
        txt, fr = pw.movement(case["t"])
        data = txt.encode()
        ends, dat, p = [], [], 0
        for f in fr:
            b = f.text().encode()
            dat.append(p + b.rstrip(b"\n").rfind(b"\n") + 1)
            p += len(b)
            ends.append(p)
        pos = [min(case["start"], len(data))]
        sim.write("MOVEMENT", data[:pos[0]])
        path = sim.path("MOVEMENT")

        def append(ev):
            to = min(ev["to"], len(data))
            if to > pos[0]:
                sim.append("MOVEMENT", data[pos[0]:to])
                pos[0] = to
        sim.handlers["append"] = append
        for i, f in enumerate(case["fs"]):
            lo = sum(e <= pos[0] for e in ends)
            before = sum(v for k, v in sim.injected.items() if k not in ("short", "event"))
            o = sim.call(lambda: tf.run(f, path), case["faults"][i], name=f"call{i}")
            hit = sum(v for k, v in sim.injected.items() if k not in ("short", "event")) > before
            hi = sum(e < pos[0] for e in dat)
            if o.kind == "hang":
                raise Violation("hang", f"{f['f']}: {o!r}")
            if sim.pools_left and not set(sim.injected) & {"MemoryError", "KeyboardInterrupt"}:
                raise Violation("pool-left", f"{f['f']} ended ({o!r}) with a pool still running")
            if o.kind != "ok":
                if not hit and lo:
                    raise Violation("raised", f"{f['f']} with {lo} complete frames and no failure: {o!r}")
                continue
            bad = [tf.differs(f, o.value, fr[:n]) for n in range(max(1, lo), hi + 1)]
            if all(bad):                       # also when there is no complete frame to compute from
                raise Violation("swallowed" if hit else "wrong-result", f"{f['f']} ({lo}..{hi} complete frames, {case['opts']['cores']} cores): "
                                f"{bad[0] if bad else 'a result without a complete frame'}")

    def nontrivial(self, case, info):
        return bool(info["injected"]) or case["start"] < len(pw.movement(case["t"])[0]) or sum("takes chunk" in l for l in info["log"]) > 1

    def shrink(self, case):
        n = len(case["fs"])
        for i in range(n):
            if n > 1:
                yield {**case, "fs": case["fs"][:i] + case["fs"][i + 1:], "faults": case["faults"][:i] + case["faults"][i + 1:]}
        for i in range(n):
            for q in range(len(case["faults"][i])):
                f = case["faults"][i]
                yield {**case, "faults": case["faults"][:i] + [f[:q] + f[q + 1:]] + case["faults"][i + 1:]}
        for t in pw.shrink_traj(case["t"]):
            if len(t["z"]) == len(case["t"]["z"]):
                yield {**case, "t": t}
        for c in (1, 4):
            if case["opts"]["cores"] > c:
                yield {**case, "opts": {**case["opts"], "cores": c}}


if __name__ == "__main__":
    driver.main(C18)
