import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, readers as rd
from sim.core import Violation

WHERE = ["a/F", "b/F", "F"]


class C06(driver.Check):
    id = "C06"
    technique = "deterministic simulation: rewrite/read histories under a simulated clock and time stamps"
    real = ["every file reader of matersdk.io.pwmat, DStructure.from_file, InfoSet.from_file", "linecache, pandas, pymatgen as imported"]
    stub = ["the clock and the file time stamps", "the process rewriting the files"]
    rule = ("a case is a history of writes (in place, atomic replacement, delete and re-create; equal sizes and equal or older time stamps "
            "included) and reads in one process; non-trivial when a path is read after being rewritten; distinct by (workload, operation-log digest)")
    assumptions = ["no write happens between constructing and querying one reader (see C07 for that)"]
    quick = (480, 5)
    thorough = (50000, 10)

    def setup(self):
        rd.load()

    def gen(self, r, j):
        kinds = [rd.KINDS[j % len(rd.KINDS)]]
        if r.random() < .4:
            kinds.append(r.choice(rd.KINDS))
        base = [rd.gen(r, k, f"c06.{j}.{i}") for i, k in enumerate(kinds)]
        for b in base:
            if r.random() < .6:
                b["pad"] = r.choice([50, 300, 900])        # room for other layouts of the same length
        cur, steps = {}, []
        for _ in range(r.randint(4, 12)):
            w = r.choice(WHERE if len(kinds) > 1 else WHERE[:2])
            if w not in cur or r.random() < .5:
                x = r.random()
                if w not in cur or x < .15:
                    d = rd.variant(r, r.choice(base))
                elif x < .55:
                    d = rd.same_size(r, cur[w])
                elif x < .75 and len(cur) > 1:
                    d = r.choice([cur[k] for k in sorted(cur)])
                else:
                    d = rd.variant(r, cur[w])
                cur[w] = d
                how = r.choice(["write", "write", "replace", "recreate", "swap"])
                steps.append({"do": how, "w": w, "d": d, "dt": r.choice([0, 0, 0, 1, -1, -3600, 10**4])})
                if how == "swap":
                    o = r.choice(WHERE)
                    steps[-1]["o"] = o
                    if o in cur:
                        cur[w], cur[o] = cur[o], cur[w]
            if r.random() < .75:
                steps.append({"do": "read", "w": w, "how": r.choice(["abs", "abs", "cwd", "dot", "odd"]), "keep": r.random() < .4})
        for w in sorted(cur):
            steps.append({"do": "read", "w": w, "how": "abs", "keep": False})
        return {"steps": steps, "opts": {"bufsize": r.choice([64, 8192]), "gran_ns": r.choice([1, 10**9, 2 * 10**9]),
                                         "step_ns": r.choice([0, 1000, 10**6])}}

    def plan(self, r, case, info, k):
        """The same history with other time stamps, granularity and step order."""
        case["seed"] = f"{case['seed']}+{k}"
        case["opts"]["gran_ns"] = r.choice([1, 10**6, 10**9, 3600 * 10**9])
        case["opts"]["step_ns"] = r.choice([0, 0, 1, 10**6, 10**10])
        for s in case["steps"]:
            if "dt" in s:
                s["dt"] = r.choice([0, 0, 0, 1, -1, -86400, 10**5])
            if s["do"] in ("write", "replace", "recreate"):
                s["do"] = r.choice(["write", "replace", "recreate"])
            if "how" in s:
                s["how"] = r.choice(["abs", "abs", "cwd", "dot", "odd"])
        return case

    def run(self, sim, case):
        for d in ("a", "b"):
            os.mkdir(sim.path(d))
        cur, n = {}, 0
        cwd = os.getcwd()
        rd.KEEP = kept = []
        rd.side(sim)
        try:
            for s in case["steps"]:
                w = s["w"]
                if s["do"] == "read":
                    if w not in cur:
                        continue
                    full = sim.path(w)
                    p = full
                    if s["how"] == "cwd":
                        os.chdir(os.path.dirname(full))
                        p = os.path.basename(full)
                    elif s["how"] == "dot":
                        os.chdir(sim.root)
                        p = "./" + w
                    elif s["how"] == "odd":
                        p = os.path.join(os.path.dirname(full), ".", os.path.basename(full))
                    d = cur[w]
                    o = sim.call(lambda: rd.read(d, p), name=f"read{n}")
                    n += 1
                    os.chdir(cwd)
                    if not s["keep"]:
                        del kept[:]
                    if o.kind != "ok":
                        raise Violation("raised", f"{d['k']} at {w}: {o!r}")
                    e = rd.differs(d, o.value)
                    if e:
                        raise Violation("stale", f"{d['k']} at {w} does not show the current content: {e}")
                    continue
                sim.advance(int(s["dt"] * 10**9))
                t = rd.text(s["d"])
                rd.side(sim, len(sim.log))
                old = os.stat(sim.path(w)) if os.path.exists(sim.path(w)) else None
                if s["do"] == "replace" or s["do"] == "swap":
                    sim.replace(w, t)
                elif s["do"] == "recreate":
                    if os.path.exists(sim.path(w)):
                        os.remove(sim.path(w))
                    sim.write(w, t)
                else:
                    sim.write(w, t)
                cur[w] = s["d"]
                sim.log.append(f"{s['do']} {w} {s['dt']} {len(t)} {sim.mtime()}")
                if old is not None:
                    new = os.stat(sim.path(w))
                    sim.injected["rewrite"] += 1
                    sim.injected["rewrite-same-size"] += old.st_size == new.st_size
                    sim.injected["rewrite-same-mtime"] += old.st_mtime_ns == new.st_mtime_ns
                    sim.injected["rewrite-same-size-and-mtime"] += (old.st_size, old.st_mtime_ns) == (new.st_size, new.st_mtime_ns)
                    sim.injected["clock-backwards"] += old.st_mtime_ns > new.st_mtime_ns
                if s["do"] == "swap" and s["o"] in cur and s["o"] != w:
                    a, b = sim.path(w), sim.path(s["o"])
                    os.rename(a, a + ".t"), os.rename(b, a), os.rename(a + ".t", b)
                    cur[w], cur[s["o"]] = cur[s["o"]], cur[w]
        finally:
            os.chdir(cwd)
            rd.KEEP = None

    def nontrivial(self, case, info):
        seen, rew = set(), set()
        for s in case["steps"]:
            if s["do"] == "read":
                if s["w"] in rew:
                    return True
                seen.add(s["w"])
            elif s["w"] in seen:
                rew.add(s["w"])
        return False

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            if s.get("dt"):
                yield {**case, "steps": st[:i] + [{**s, "dt": 0}] + st[i + 1:]}
            if s.get("how", "abs") != "abs":
                yield {**case, "steps": st[:i] + [{**s, "how": "abs"}] + st[i + 1:]}
            if s.get("keep"):
                yield {**case, "steps": st[:i] + [{**s, "keep": False}] + st[i + 1:]}


if __name__ == "__main__":
    driver.main(C06)
