import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sim import driver, pwfiles as pw, readers as rd
from sim.core import Violation


class History:
    """What the simulation wrote: segments (runs), each cut off at some byte."""
    def __init__(self, segs):
        self.text = b""
        self.full = []            # (end byte, frame) frames whose terminator line is complete
        self.data = []            # (end-of-data byte, frame): everything but the terminator
        self.torn = False
        for i, s in enumerate(segs):
            base = len(self.text)
            txt, fr = pw.movement(s["t"])
            b = txt.encode()
            cut = len(b) if s.get("cut") is None else min(s["cut"], len(b))
            p = 0
            bounds = {0}
            for f in fr:
                ft = f.text().encode()
                end = p + len(ft)
                dat = p + ft.rstrip(b"\n").rfind(b"\n") + 1
                if end <= cut:
                    self.full.append((base + end, f))
                if dat < cut:
                    self.data.append((base + dat, f))
                p = end
                bounds.add(end)
            if i < len(segs) - 1 and cut not in bounds:
                self.torn = True
            a, b0 = s["t"], segs[0]["t"]
            if any(bool(a.get(k)) != bool(b0.get(k)) for k in ("virial", "eatom", "mag")) or sorted(a["z"]) != sorted(b0["z"]):
                self.torn = True             # runs with different settings: only the weak promise
            self.text += b[:cut]

    def whole(self, pos):
        return [f for e, f in self.full if e <= pos]

    def maybe(self, pos):
        return [f for e, f in self.data if e <= pos]


def same(f, x, marks):
    """x: [box, types, coords, etot, fatoms, virial?, eatoms?, magmoms?]"""
    ok = pw.close(np.ravel(x[0]), f.box) and list(map(int, np.ravel(x[1]))) == f.z and pw.close(np.ravel(x[2]), f.coords) \
        and pw.close(np.ravel(x[3]), [f.etot]) and pw.close(np.ravel(x[4]), f.forces)
    if not ok:
        return False
    for v, want in ((x[5], f.virial), (x[6], f.eatoms), (x[7], f.mags)):
        if v is not None and (want is None or not pw.close(np.ravel(v), want)):
            return False
    return True


class C04(driver.Check):
    id = "C04"
    technique = "deterministic simulation: writer histories (cut-offs, concurrent appends, restarts) interleaved with the reader's operations"
    real = ["matersdk.io.pwmat.utils.mvextractor", "matersdk.io.pwmat.utils.acextractor", "matersdk.io.pwmat.utils.lineLocator",
            "matersdk.data.infoset", "matersdk.io.pwmat.output.movement", "matersdk.io.publicLayer.structure"]
    stub = ["the MD code writing the trajectory (model writer appending bytes between reader operations)", "read sizes"]
    rule = ("a case is a writer history (runs, cut-off bytes, appends at numbered reader operations) and a sequence of reader calls; "
            "non-trivial when the file is cut off, grows while being read or was restarted; distinct by (workload, operation-log digest)")
    assumptions = ["the writer only appends; bytes once written do not change", "a frame's terminator is a line of at least 38 dashes"]
    quick = (2000, 14)
    thorough = (40000, 20)

    def setup(self):
        global MVExtractor, InfoSet, Movement
        from matersdk.io.pwmat.output.movement import Movement
        from matersdk.io.pwmat.utils.mvextractor import MVExtractor
        from matersdk.data.infoset import InfoSet

    def cutpos(self, r, t, nonzero=False):
        txt = pw.movement(t)[0]
        k = r.random()
        n = len(txt)
        if k < .35:
            c = r.randrange(n + 1)
        elif k < .5:                       # inside or next to a terminator
            ends = [i for i in range(n) if txt.startswith(" ---", i)]
            c = r.choice(ends) + r.randrange(-3, 95)
        elif k < .7:                       # near a line end
            ends = [i for i, ch in enumerate(txt) if ch == "\n"]
            c = r.choice(ends) + r.randrange(-2, 3)
        elif k < .85:                      # near a section heading
            ends = [i for i in range(n) for w in ("Force", "Position", "Lattice", "Atomic-E", "Velocity", "atoms", "Magnetic") if txt.startswith(w, i)]
            c = r.choice(ends) + r.randrange(-8, 60)
        else:                              # frame boundary
            ends = [0] + [i + 1 for i, ch in enumerate(txt) if ch == "\n" and txt[i - 1] == "-"]
            c = r.choice(ends)
        return max(0, min(n, c))

    def gen(self, r, j):
        z = pw.gen_z(r, nmax=r.choice([4, 4, 4, 12, 40]))
        nseg = r.choice([1, 1, 1, 2, 2, 3])
        segs = []
        base = pw.gen_traj(r, f"c04.{j}", z)
        for i in range(nseg):
            t = {**base, "s": f"{base['s']}.{i}", "nf": r.choice([1, 2, 3, 4, 4, r.choice([6, 10, 13])])}
            if r.random() < .1:
                t["virial"] = not t["virial"]
            if r.random() < .1:
                t["rep"] = True
            segs.append({"t": t, "cut": None})
        for s in segs[:-1]:
            s["cut"] = self.cutpos(r, s["t"])
        if r.random() < .4:
            segs[-1]["cut"] = self.cutpos(r, segs[-1]["t"])
        H = History(segs)
        calls = ["new"] + [r.choice(["bulk", "bulk", "one", "new", "infoset", "str"]) for _ in range(r.choice([1, 2, 3]))]
        if j % 5 < 2:
            calls = ["Mnew"] + [r.choice(["Minfo", "Minfo", "Mall", "Mone", "Mval", "Mval", "Mnew"]) for _ in range(r.choice([1, 2, 3]))]
        start = len(H.text) if r.random() < .4 else r.randrange(len(H.text) + 1)
        return {"segs": segs, "calls": calls, "start": start, "faults": [],
                "opts": {"bufsize": r.choice([16, 64, 200, 1024, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        n = max(info["phases"]["read"]["n"], 20)
        segs = case["segs"]
        if r.random() < .5:
            for s in segs[:-1]:
                s["cut"] = self.cutpos(r, s["t"])
            segs[-1]["cut"] = self.cutpos(r, segs[-1]["t"]) if r.random() < .5 else None
        H = History(segs)
        total = len(H.text)
        mode = r.random()
        if mode < .35:
            case["start"], case["faults"] = total, []
        else:
            ends = [e for e, _ in H.full] or [total]
            case["start"] = r.choice([r.randrange(total + 1), r.choice(ends), min(total, r.choice(ends) + r.randrange(200))])
            pos = case["start"]
            case["faults"] = []
            for at in sorted(r.randint(1, n) for _ in range(r.choice([1, 2, 3, 5]))):
                pos = r.choice([min(total, pos + r.randrange(1, 400)), r.randint(pos, total), total,
                                min([e for e in ends if e > pos] or [total])])
                case["faults"].append({"op": "any", "n": at, "do": "event", "ev": {"t": "append", "to": pos}})
        return case

    def run(self, sim, case):
        H = History(case["segs"])
        pos = [min(case["start"], len(H.text))]
        sim.write("MOVEMENT", H.text[:pos[0]])
        path = sim.path("MOVEMENT")

        def append(ev):
            to = min(ev["to"], len(H.text))
            if to > pos[0]:
                sim.append("MOVEMENT", H.text[pos[0]:to])
                pos[0] = to
        sim.handlers["append"] = append
        hist = []

        def attempt(name, fn):
            lo = pos[0]
            try:
                v = fn()
            except Exception as e:
                e.__traceback__ = None
                hist.append((name, lo, pos[0], None, e))
                return None
            hist.append((name, lo, pos[0], v, None))
            return v

        def program():
            mv = mt = None
            nmv = nmt = 0
            for i, c in enumerate(case["calls"]):
                if c == "new":
                    m = attempt("new", lambda: MVExtractor(path))
                    if m is not None:
                        mv, nmv = m, int(m.get_num_frames())
                elif c == "infoset":
                    attempt("infoset", lambda: InfoSet.from_file(path, "PWMAT/MOVEMENT"))
                elif c == "Mnew":
                    m = attempt("Mnew", lambda: Movement(path))
                    if m is not None:
                        mt, nmt = m, self.count(m)
                elif c[0] == "M":
                    k = (case["start"] + i) % max(1, nmt)
                    if mt is None or nmt == 0:
                        continue
                    if c == "Minfo":
                        attempt("Minfo", lambda: mt.get_all_frame_structures_info())
                    elif c == "Mall":
                        attempt("Mall", lambda: mt.get_all_frame_structures())
                    elif c == "Mone":
                        attempt(f"Mone{k}", lambda: mt.get_frame_structure(k))
                    else:
                        attempt(f"Mene{k}", lambda: mt.get_frame_energy(k))
                        attempt(f"Mvir{k}", lambda: mt.get_frame_virial(k))
                        attempt(f"Mvol{k}", lambda: mt.get_frame_volume(k))
                elif mv is None:
                    continue
                elif c == "bulk":
                    attempt("bulk", lambda: mv.get_frames_info())
                elif c == "one":
                    k = (case["start"] + i) % max(1, nmv)
                    attempt(f"one{k}", lambda: mv.get_frame_info(k))
                elif c == "str":
                    k = (case["start"] + 2 * i) % max(1, nmv)
                    attempt(f"str{k}", lambda: mv.get_frame_str(k))
        o = sim.call(program, case["faults"], name="read")
        if o.kind != "ok":
            raise Violation("hang" if o.kind == "hang" else "raised", f"{o!r}")
        self.judge(sim, H, hist)

    def judge(self, sim, H, hist):
        mcur = None                # number of frames the present Movement object has
        cur = None                 # (number of frames, marks, allowed) of the present extractor
        for name, lo, hi, v, e in hist:
            sim.log.append(f"{name} {lo}..{hi} {type(e).__name__ if e else 'ok'}")
            nlo, nhi = len(H.whole(lo)), len(H.maybe(hi))
            if name[0] == "M":
                mcur = self.judge_movement(H, name, nlo, nhi, hi, v, e, mcur)
                continue
            if e is not None:
                if not H.torn and (name in ("new", "infoset")) and nlo >= 1:
                    raise Violation("raised", f"{name}: {nlo} complete frames present, yet {type(e).__name__}: {e}")
                if not H.torn and cur is not None and name not in ("new", "infoset"):
                    raise Violation("raised", f"{name} on an indexed file: {type(e).__name__}: {e}")
                continue
            if name == "new":
                n = int(v.num_frames)
                if int(v.get_num_frames()) != n:
                    raise Violation("count", "num_frames disagree")
                if not H.torn and not nlo <= n <= nhi:
                    raise Violation("count", f"indexed {n} frames, complete between {nlo} and {nhi}")
                cur = (n, (bool(v.virial_mark), bool(v.eatoms_mark), bool(v.magmoms_mark)), hi)
                continue
            if name == "infoset":
                x = [v.box, None, v.coord, v.etot, v.fatom, v.virial if v.virial_mark else None, v.eatom if v.eatom_mark else None, v.magmom if v.magmom_mark else None]
                names = list(v.formula_dict)
                inv = {s: z for z, s in pw.ELEMENTS.items()}
                x[1] = [[inv[names[int(t)]] for t in row] for row in v.types]
                n = int(v.num_frames)
                marks = (bool(v.virial_mark), bool(v.eatom_mark), bool(v.magmom_mark))
                self.frames(H, name, x, n, nlo, nhi, hi, marks)
            elif name == "bulk":
                n, marks, _ = cur
                x = list(v[:5])
                rest = list(v[5:])
                x += [rest.pop(0) if marks[0] else None, rest.pop(0) if marks[1] else None, rest.pop(0) if marks[2] else None]
                self.frames(H, name, x, n, n, n, hi, marks)
            elif name.startswith("one"):
                k = int(name[3:])
                n, marks, _ = cur
                x = list(v[:5])
                rest = list(v[5:])
                x += [rest.pop(0) if marks[0] else None, rest.pop(0) if marks[1] else None, rest.pop(0) if marks[2] else None]
                allowed = H.maybe(hi)
                if H.torn:
                    if not any(same(f, x, marks) for f in allowed):
                        raise Violation("hybrid-frame", f"frame {k} is not a frame the simulation wrote completely")
                elif not same(allowed[k], x, marks):
                    raise Violation("wrong-frame", f"single access to frame {k} differs from the file")
            elif name.startswith("str"):
                k = int(name[3:])
                allowed = H.maybe(hi)
                if not H.torn:
                    a, b = v.rstrip().rstrip("-").split(), allowed[k].text().rstrip().rstrip("-").split()
                    if a != b:
                        raise Violation("wrong-frame", f"text of frame {k} differs from the file")

    @staticmethod
    def count(m):
        c = getattr(m, "chunksizes_lst", None)
        return len(m.get_chunksize() if c is None else c)

    def judge_movement(self, H, name, nlo, nhi, hi, v, e, cur):
        allowed = H.maybe(hi)
        if e is not None:
            if not H.torn and nlo >= 1 and (name == "Mnew" or cur):
                raise Violation("raised", f"{name}: {nlo} complete frames present, yet {type(e).__name__}: {e}")
            return cur
        if name == "Mnew":
            n = self.count(v)
            if not H.torn and not nlo <= n <= nhi:
                raise Violation("count", f"Movement indexed {n} frames, complete between {nlo} and {nhi}")
            return n
        if name in ("Minfo", "Mall"):
            structs = v[0] if name == "Minfo" else v
            n = len(structs)
            if n != cur:
                raise Violation("count", f"{name}: {n} frames, the index has {cur}")
            p, pick = 0, []
            for i, s in enumerate(structs):
                while p < len(allowed) and rd.struct_differs(allowed[p], s):
                    if not H.torn:
                        raise Violation("wrong-frame", f"{name}: frame {i}: {rd.struct_differs(allowed[p], s)}")
                    p += 1
                if p == len(allowed):
                    raise Violation("hybrid-frame", f"{name}: frame {i} is not (in order) a frame the simulation wrote completely")
                pick.append(allowed[p])
                p += 1
            if name == "Minfo":
                d = rd.info_differs(pick, v)
                if d:
                    raise Violation("wrong-frame", f"{name}: {d}")
            return cur
        k = int(name[4:])
        arg = {"Mene": "energy", "Mvir": "virial", "Mvol": "volume"}.get(name[:4])
        bad = (lambda f: rd.frame_values_differ(f, **{arg: v})) if arg else (lambda f: rd.struct_differs(f, v))
        if H.torn:
            if all(bad(f) for f in allowed):
                raise Violation("hybrid-frame", f"{name[:4]} of frame {k} belongs to no frame the simulation wrote completely")
        elif bad(allowed[k]):
            raise Violation("wrong-frame", f"single access to frame {k} ({name[:4]}): {bad(allowed[k])}")
        return cur

    def frames(self, H, name, x, n, nlo, nhi, hi, marks):
        for i, a in enumerate(x):
            if a is not None and len(a) != n:
                raise Violation("count", f"{name}: array {i} has {len(a)} frames, reported {n}")
        rows = [[None if a is None else a[i] for a in x] for i in range(n)]
        allowed = H.maybe(hi)
        if H.torn:
            p = 0
            for i, row in enumerate(rows):
                while p < len(allowed) and not same(allowed[p], row, marks):
                    p += 1
                if p == len(allowed):
                    raise Violation("hybrid-frame", f"{name}: frame {i} is not (in order) a frame the simulation wrote completely")
                p += 1
            return
        if not nlo <= n <= nhi:
            raise Violation("count", f"{name}: {n} frames, complete between {nlo} and {nhi}")
        if n == 0:
            return
        for i, row in enumerate(rows):
            if not same(allowed[i], row, marks):
                raise Violation("wrong-frame", f"{name}: frame {i} differs from what was written")
        f0 = allowed[0]
        if marks != (f0.virial is not None, f0.eatoms is not None, f0.mags is not None):
            raise Violation("optional", f"{name}: marks {marks}")

    def nontrivial(self, case, info):
        return bool(info["injected"]) or len(case["segs"]) > 1 or case["segs"][-1].get("cut") is not None or case["start"] < len(History(case["segs"]).text)

    def shrink(self, case):
        for i in range(len(case["calls"])):
            if len(case["calls"]) > 1:
                yield {**case, "calls": case["calls"][:i] + case["calls"][i + 1:]}
        for i in range(len(case["segs"])):
            if len(case["segs"]) > 1:
                yield {**case, "segs": case["segs"][:i] + case["segs"][i + 1:]}
        if len(case["segs"]) == 1 and case["segs"][0].get("cut") is not None:
            yield {**case, "segs": [{**case["segs"][0], "cut": None}]}
        for i, s in enumerate(case["segs"]):
            for t in pw.shrink_traj(s["t"]):
                yield {**case, "segs": case["segs"][:i] + [{**s, "t": t}] + case["segs"][i + 1:]}


if __name__ == "__main__":
    driver.main(C04)
