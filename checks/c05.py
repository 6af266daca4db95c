import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver, faults as fl, readers as rd
from sim.core import Violation


USUAL = {"mv": ["MOVEMENT"], "mv1": ["MOVEMENT"], "infoset": ["MOVEMENT"], "mvt": ["MOVEMENT"], "ac": ["atom.config", "final.config"],
         "dstruct": ["atom.config", "final.config"], "kmesh": ["atom.config", "final.config"], "inkpt": ["IN.KPT", "OUT.KPT"],
         "report": ["REPORT"], "fermi": ["OUT.FERMI"], "dos": ["DOS.totalspin", "DOS.totalspin_projected"], "fat": ["bandstructure_1.txt"]}


class C05(driver.Check):
    id = "C05"
    technique = "deterministic simulation: read faults (EIO, ESTALE, vanished file, short reads) at every numbered operation of every reader"
    real = ["every file reader of matersdk.io.pwmat, DStructure.from_file, InfoSet.from_file", "pandas.read_csv, pymatgen"]
    stub = ["the disk below builtins.open / os (errors, short reads, buffer size)"]
    rule = ("a case is a sequence of documents read by their real readers with faults at numbered operations; non-trivial when a fault "
            "or short read was injected; distinct by (workload, operation-log digest)")
    assumptions = ["the file itself is intact: only operations fail", "a failing close of a read-only handle is not a failing read"]
    alloc, alloc_phases = 0.15, r"read\d+"
    quick = (900, 14)
    thorough = (30000, 24)

    def setup(self):
        rd.load()

    def gen(self, r, j):
        n = r.choice([1, 1, 2, 3])
        kinds = [rd.KINDS[j % len(rd.KINDS)]] + [r.choice(rd.KINDS) for _ in range(n - 1)]
        case = {"docs": [rd.gen(r, k, f"c05.{j}.{i}") for i, k in enumerate(kinds)],
                "faults": [[] for _ in kinds], "opts": {"bufsize": r.choice([16, 64, 300, 1024, 8192])}}
        if r.random() < .3:                         # other files of the kind beside it
            d = case["docs"][0]
            case["beside"] = {n: rd.variant(r, d) for n in USUAL[d["k"]] + [r.choice(["d0.bak", "d0.old", "d0~", "d0.tmp"])]}
        return case

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        for i in range(len(case["docs"])):
            c = info["phases"].get(f"read{i}", {}).get("c") or {}
            fs = []
            x = r.random()
            if x < .65:
                f = fl.hard(r, c, fl.READS)
                if f and r.random() < .3:
                    f["sticky"] = ["read"]
                if f and f["op"] == "open_r" and r.random() < .4:
                    f = {"op": "open_r", "n": f["n"], "do": "event", "ev": {"t": "vanish", "i": i}}
                if f:
                    fs.append(f)
            elif x < .9:
                for _ in range(r.choice([1, 2, 4])):
                    f = fl.benign(r, c)
                    if f:
                        fs.append(f)
            case["faults"][i] = fs
        return case

    def run(self, sim, case):
        names = [f"d{i}" for i in range(len(case["docs"]))]
        for n, d in zip(names, case["docs"]):
            sim.write(n, rd.text(d))

        beside = {n: rd.text(d).encode() for n, d in case.get("beside", {}).items()}
        for n, t in beside.items():
            sim.write(n, t.decode())
        rd.side(sim)
        side = sim.snapshot("side")

        def vanish(ev):
            p = sim.path(names[ev["i"]])
            if os.path.exists(p):
                os.remove(p)
        sim.handlers["vanish"] = vanish
        for rnd, pre in (("read", case["faults"]), ("again", [[]] * len(names))):
            for i, (n, d) in enumerate(zip(names, case["docs"])):
                fs = pre[i]
                gone = not os.path.exists(sim.path(n))
                before = sum(v for k, v in sim.injected.items() if k not in ("short", "event"))
                o = sim.call(lambda: rd.read(d, sim.path(n)), fs, name=f"{rnd}{i}")
                hit = sum(v for k, v in sim.injected.items() if k not in ("short", "event")) > before
                if o.kind == "hang":
                    raise Violation("hang", f"{d['k']}: {o.exc}")
                if o.kind == "ok":
                    e = rd.differs(d, o.value)
                    if e:
                        raise Violation("wrong-data", f"{d['k']} ({'after a failed read' if hit else 'no failure'}): {e}")
                    # hit but value exact: the reader recovered, which is fine
                    if gone:
                        raise Violation("ghost", f"{d['k']}: returned although the file does not exist")
                elif not hit and not gone and os.path.exists(sim.path(n)):
                    raise Violation("raised", f"{d['k']}: {o!r} without a failing operation")
        if sim.snapshot("side") != side:
            raise Violation("side-effect", "a companion file was changed")
        now = sim.snapshot()
        if any(now.get(n) != t for n, t in beside.items()):
            raise Violation("side-effect", "a file beside the input was changed")
        left = [p for p in now if p not in names and p not in beside and p.split("/")[0] != "side"]
        if left:
            raise Violation("litter", f"readers left {left}")
        for n, d in zip(names, case["docs"]):
            p = sim.path(n)
            if os.path.exists(p) and open(p, "rb").read() != rd.text(d).encode():
                raise Violation("side-effect", f"{d['k']}: the input file was changed")

    def nontrivial(self, case, info):
        return bool(info["injected"])

    def shrink(self, case):
        if case.get("beside"):
            yield {k: v for k, v in case.items() if k != "beside"}
        n = len(case["docs"])
        for i in range(n):
            if n > 1:
                yield {**case, "docs": case["docs"][:i] + case["docs"][i + 1:], "faults": case["faults"][:i] + case["faults"][i + 1:]}
        for i in range(n):
            for q in range(len(case["faults"][i])):
                f = case["faults"][i]
                yield {**case, "faults": case["faults"][:i] + [f[:q] + f[q + 1:]] + case["faults"][i + 1:]}
        for i in range(n):
            for d in rd.shrink(case["docs"][i]):
                yield {**case, "docs": case["docs"][:i] + [d] + case["docs"][i + 1:]}


if __name__ == "__main__":
    driver.main(C05)
