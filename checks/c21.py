import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sim import driver, faults as fl, pwfiles as pw, readers, writers
from sim.core import Violation


class Bad(Exception):
    """The text does not hold what was asked for."""


def parse_ac(t):
    """Independent parser of a whole structure file: atom count, lattice, elements, coordinates, moments."""
    L = t.split("\n")
    n = int(L[0].split()[0])
    up = [x.upper() for x in L]
    i = next(k for k, x in enumerate(up) if "LATTICE" in x)
    box = [float(v) for row in L[i + 1:i + 4] for v in row.split()[:3]]
    i = next(k for k, x in enumerate(up) if "POSITION" in x)
    rows = [x.split() for x in L[i + 1:i + 1 + n]]
    m = [k for k, x in enumerate(up) if "MAGNETIC" in x]
    return n, box, [int(x[0]) for x in rows], [float(v) for x in rows for v in x[1:4]], [x.split() for x in L[m[0] + 1:m[0] + 1 + n]] if m else None


def completed(T, P):
    """T with the number that P ends in cut as it is in P: what a reader of P may take for the content."""
    c = len(P)
    if c and c < len(T) and not P[-1].isspace() and not T[c].isspace():
        e = c
        while e < len(T) and not T[e].isspace():
            e += 1
        return P + T[e:]
    return T


class C21(driver.Check):
    id = "C21"
    technique = ("deterministic simulation: structure and k-point files left by a killed, failing or still running writer (the library's own writer "
                 "under injected crashes, or any prefix) read by the real readers, against the complete document")
    real = ["matersdk.io.pwmat.utils.acextractor.ACExtractor", "matersdk.io.publicLayer.structure.DStructure.from_file / to", "matersdk.io.pwmat.input.inkpt",
            "matersdk.calculation.kpoints.kmesh", "pymatgen Structure"]
    stub = ["the disk below builtins.open / os", "the calculation that writes the file", "read sizes"]
    rule = ("a case is a document, the way it comes to disk (cut off at a byte, growing at numbered reader operations, or written by the library with a "
            "crash or failing operation) and the readers opened on it; non-trivial when the file was incomplete at some time; distinct by "
            "(workload, log digest)")
    assumptions = ["a writer fills the file front to back", "a number cut in its last digits cannot be told from a shorter number and may be read as such"]
    quick = (1300, 12)
    thorough = (20000, 24)

    def setup(self):
        readers.load()
        writers.load()

    def gen(self, r, j):
        k = ["ac", "kpt", "own", "report", "report", "dos", "fat", "fermi"][j % 8 if r.random() < .97 else 7]
        if k == "fermi" and r.random() < .8:
            k = "ac"
        if k == "own":
            doc = writers.gen(r, r.choice(["pwmat", "mag"]), f"c21.{j}")
        elif k == "kpt":
            doc = readers.gen(r, "inkpt", f"c21.{j}")
        elif k in ("report", "dos", "fat", "fermi"):
            doc = readers.gen(r, k, f"c21.{j}")
            doc["metal"] = False
        else:
            doc = readers.gen(r, "ac", f"c21.{j}")
        kinds = ["ac", "dstruct", "kmesh"] if k in ("ac", "own") else [k]
        return {"k": k, "doc": doc, "cut": None, "rd": [r.choice(kinds) for _ in range(r.choice([1, 2, 2, 3]))], "wf": [], "faults": [],
                "opts": {"bufsize": r.choice([16, 64, 256, 8192])}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        if case["k"] == "own":
            c = info["phases"].get("write", {}).get("c") or {}
            f = (fl.crash if r.random() < .6 else fl.hard)(r, c)
            if f and r.random() < .6:
                case["wf"] = [f]
            else:
                case["cut"] = [r.random(), r.random() < .5]
            return case
        T = readers.text(case["doc"])
        n = len(T)
        x = r.random()
        if x < .3:
            c = r.randrange(n)
        elif x < .6:                             # at or near the end of a line
            c = r.choice([i for i, ch in enumerate(T) if ch == "\n"]) + r.randrange(-1, 3)
        elif x < .8:                             # near the end of a word
            c = r.choice([i for i in range(1, n) if T[i].isspace() and not T[i - 1].isspace()]) + r.randrange(-2, 3)
        else:
            c = n - r.randrange(1, min(n, 40))
        case["cut"] = max(0, min(n, c))
        if r.random() < .35 and n < 20000:       # still being written
            m = max(1, info["phases"].get("read", {}).get("n", 1))
            pos = case["cut"]
            for at in sorted(r.randint(1, m) for _ in range(r.choice([1, 1, 2]))):
                pos = r.choice([n, r.randint(pos, n), min(n, pos + r.randrange(1, 60))])
                case["faults"].append({"op": "any", "n": at, "do": "event", "ev": {"t": "grow", "to": pos}})
        return case

    def run(self, sim, case):
        path = sim.path("f")
        seen = []
        doc = case["doc"]
        readers.side(sim)
        if case["k"] == "own":
            ob = writers.Obj(case["doc"])
            sim.call(lambda: ob.write(ob.build(), sim.path("ref")), name="ref")
            T = open(sim.path("ref")).read()
            o = sim.call(lambda: ob.write(ob.build(), path), case["wf"], name="write")
            if o.kind == "hang":
                raise Violation("hang", f"{o!r}")
            if o.kind == "crash":
                sim.restart()
            P = open(path).read() if os.path.exists(path) else None
            if P is None or not T.startswith(P):
                return
            if case["cut"] is not None:
                q, snap = case["cut"]
                c = int(q * len(T))
                P = T[:T.find("\n", c) + 1 or len(T)] if snap else T[:c]
                sim.write("f", P)
        else:
            T = readers.text(case["doc"])
            P = T if case["cut"] is None else T[:case["cut"]]
            sim.write("f", P)
        if P != T:
            sim.injected["incomplete"] += 1
        seen.append(len(P))

        def grow(ev):
            to = min(ev["to"], len(T))
            if to > seen[-1]:
                sim.append("f", T[seen[-1]:to])
                seen.append(to)
        sim.handlers["grow"] = grow
        hist = []

        def read(kind):
            lo = len(seen) - 1
            out = {}
            hist.append((kind, lo, out))

            def take(name, fn):
                a = len(seen) - 1
                try:
                    v = fn()
                except Exception as e:
                    out[name] = ("raised", repr(e)[:80], a, len(seen))
                    e.__traceback__ = None
                    return None
                out[name] = ("ok", v, a, len(seen))
                return v
            if kind == "kpt":
                k = take("open", lambda: readers.Inkpt(path))
                if k is not None:
                    take("flags", lambda: (k.iflag, k.a0))
                    take("num", k.get_num_kpts)
                    take("coords", k.get_kpt_coords_frac)
                    take("weights", k.get_kpt_weights)
                    take("hsp", k.get_hsp)
            elif kind == "report":
                p = readers.Report(path)
                take("nb", p.get_num_bands)
                take("nk", p.get_num_kpts)
                take("eigen", p.get_eigen_energies)
                take("gap", lambda: float(p.get_bandgap(readers.SIDE["fermi"])))
                take("cbm", lambda: p.get_cbm(readers.SIDE["fermi"])["energies"][0])
            elif kind == "fermi":
                take("ef", lambda: float(readers.OutFermi(path).get_efermi()))
            elif kind == "dos":
                d = take("open", lambda: readers.Dostotalspin(path))
                if d is not None:
                    for n, f in (("tdos", d.get_tdos), ("elements", d.get_pdos_elements), ("orbitals", d.get_pdos_orbitals)):
                        take(n, f)
            elif kind == "fat":
                d = take("open", lambda: readers.FatbandStructure(path))
                if d is not None:
                    o = readers.orbital(doc)
                    for n, f in (("total", d.get_total_dfs_lst), ("by-element", d.get_element_dfs_lst), ("orbital", lambda: d.get_orbital_dfs_lst(o))):
                        if o or n != "orbital":
                            take(n, f)
            elif kind == "ac":
                a = take("open", lambda: readers.ACExtractor(path))
                if a is not None:
                    take("atoms", lambda: (a.num_atoms, a.basis_vectors, a.types, a.coords))
                    take("again", lambda: (a.get_num_atoms(), a.get_basis_vectors(), a.get_types(), a.get_coords()))
                    take("mag", a.get_magmoms)
            elif kind == "dstruct":
                s = take("open", lambda: readers.DStructure.from_file(path, "pwmat"))
                if s is not None:
                    take("struct", lambda: (s.num_sites, s.lattice.matrix.copy(), [x.specie.Z for x in s], s.frac_coords.copy()))
            else:
                m = take("open", lambda: readers.KMesh("pwmat", path))
                if m is not None:
                    take("struct", lambda: (m.structure.num_sites, m.structure.lattice.matrix.copy(), [x.specie.Z for x in m.structure],
                                            m.structure.frac_coords.copy()))

        def program():
            for k in case["rd"]:
                read(k)
        o = sim.call(program, case["faults"], name="read")
        if o.kind != "ok":
            raise Violation("raised" if o.kind == "exc" else o.kind, f"{o!r}")
        for kind, lo, out in hist:
            b = max(v[3] for v in out.values())
            for name, (st, v, a0, b0) in out.items():
                # what an object holds was read when it was opened or later
                texts = [T[:c] for c in seen[lo:b0]]
                if kind == "report" and len(texts) > 1:
                    # the report is read in several passes: any state between the first and the last may show
                    texts[1:1] = [T[:i + 1] for i in range(len(texts[0]), len(texts[-1]) - 1) if T[i] == "\n"]
                if st == "raised":
                    if all(t == T for t in texts):
                        raise Violation("raised", f"{kind}.{name} on the complete file: {v}")
                    continue
                if name == "open":
                    continue
                why = [self.judge(kind, name, v, T, P, doc) for P in texts]
                if all(why) and name == "gap" and len(texts) > 1:
                    # the two edges come from two readings of the growing file
                    ok = [self.edges(P) for P in texts if (self.judge(kind, "cbm", 0, T, P, doc) or "band edge").startswith("band edge")]
                    if any(abs(v - (c[0] - w[1])) < 1e-3 for c in ok for w in ok):
                        continue
                if all(why):
                    raise Violation("partial", f"{kind}.{name} on {len(texts[-1])} of {len(T)} bytes: {why[-1]}")

    def judge(self, kind, name, v, T, P, doc):
        if kind not in ("report", "dos", "fat", "fermi"):
            return self.wrong(kind, name, v, T, P)
        try:
            return getattr(self, kind)(name, v, T, P, doc)
        except (ValueError, IndexError, KeyError, TypeError, AttributeError) as e:
            return f"a value, though the text holds none ({type(e).__name__}: {e})"

    def fermi(self, name, v, T, P, doc):
        return None if abs(v - float(completed(T, P).split()[-2])) < 5e-4 + 1e-9 and P.split()[-1:] != [] and len(P.split()) >= 4 else f"{v}"

    def report(self, name, v, T, P, doc):
        C = completed(T, P)
        L = C.split("\n")
        num = {k: [int(x.split()[-1]) for x in L if k in x] for k in ("NUM_BAND", "NUM_KPT")}
        if name in ("nb", "nk"):
            return None if v == num[{"nb": "NUM_BAND", "nk": "NUM_KPT"}[name]][0] else f"{name} {v}"
        nb, nk = num["NUM_BAND"][0], num["NUM_KPT"][0]
        blocks = []                                # the eigenvalues that are in P
        for i, x in enumerate(P.split("\n")):
            if "eigen energies, in eV" in x:
                blocks.append([])
            elif blocks and len(blocks[-1]) < nb and "=" not in x and "*" not in x and "kpt" not in x:
                blocks[-1] += [float(y) for y in x.split()]
        if len(blocks) not in (nk, 2 * nk) or any(len(b) != nb for b in blocks):
            return f"{nk} k-points of {nb} bands are declared, the file holds {[len(b) for b in blocks]}"
        if name == "eigen":
            for s, w in (("up", blocks[:nk]), ("down", blocks[nk:])):
                a = np.asarray(v[s], dtype=float)
                if a.size != sum(map(len, w)) or w and not pw.close(a, w):
                    return f"eigenvalues ({s})"
            return None
        ef = readers.SIDE["ef"]
        c = min(x for b in blocks for x in b if x >= ef)
        if name == "cbm":
            return None if abs(v - c) < 1e-3 else f"band edge {v} instead of {c}"
        g = c - max(x for b in blocks for x in b if x <= ef)
        return None if abs(v - g) < 1e-3 else f"band gap {v} instead of {g}"

    def edges(self, P):
        ef, on, xs = readers.SIDE["ef"], False, []
        for x in P.split("\n"):
            on = "eigen energies, in eV" in x or on and "*" not in x
            if on and "eigen" not in x:
                xs += [float(y) for y in x.split()]
        return (min([x for x in xs if x >= ef], default=0), max([x for x in xs if x <= ef], default=0))

    def dos(self, name, v, T, P, doc):
        head = readers._dos(doc)[1]["head"]
        L = P.split("\n")
        if L[0].split() != T.split("\n")[0].split():
            return "a table, though the heading is cut"
        rows = [x.split() for x in L[1:]]
        rows = [[float(y) for y in x] for x in rows if len(x) == len(head)]
        if name == "tdos":
            return readers._df(v, head[:2], [q[:2] for q in rows], name)
        if name == "orbitals":
            return readers._df(v, head[:1] + head[2:], [q[:1] + q[2:] for q in rows], name)
        h, e = readers._sum(head, rows, 2)
        return readers._df(v, h[:1] + h[2:], [q[:1] + q[2:] for q in e], name)

    def fat(self, name, v, T, P, doc):
        head, bands = readers._fat(doc)[1]["head"], []
        for x in P.split("\n")[1:]:
            if "BAND" in x:
                bands.append([])
            elif bands and len(x.split()) == len(head):
                bands[-1].append([float(y) for y in x.split()])
        whole = [b for b in bands if len(b) == doc["nk"]]
        if len(v) != len(whole):
            return f"{len(v)} bands, {len(whole)} are complete"
        for i, b in enumerate(whole):
            rows = [[q[0] / readers.BOHR] + q[1:] for q in b]
            if name == "total":
                d = readers._df(v[i], head, rows, f"band {i}")
            elif name == "by-element":
                d = readers._df(v[i], *readers._sum(head, rows, 3), f"band {i} by element")
            else:
                o = readers.orbital(doc)
                k = next(k for k, h in enumerate(head) if h.lower() == o.lower())
                d = readers._df(v[i], head[:3] + [head[k]], [q[:3] + [q[k]] for q in rows], f"band {i} of {o}")
            if d:
                return d
        return None

    def wrong(self, kind, name, v, T, P):
        """None, or why v is not what a reader of the incomplete text P of T may return."""
        C = completed(T, P)
        try:
            if kind == "kpt":
                n = int(T.split()[0])
                if name == "num":
                    return None if v == n else f"{v} k-points instead of {n}"
                if name == "flags":
                    w = [int(x) for x in T.split("\n")[1].split()[:2]]
                    return None if v == (w[0], w[1]) else f"flags {v} instead of {w}"
                have = P.count("\n") - 2 + (0 if P.endswith("\n") else 1)
                if have < n:
                    return f"{n} k-points are declared, {have} rows are there"
                rows = [x.split() for x in C.split("\n")[2:2 + n]]
                if name == "coords":
                    return None if np.shape(v) == (n, 3) and pw.close(np.ravel(v), [float(y) for x in rows for y in x[:3]]) else "coordinates"
                if name == "weights":
                    return None if pw.close(np.ravel(v), [float(x[3]) for x in rows]) else "weights"
                rows = [x.split() for x in P.split("\n")[2:]]
                lab = [x for x in rows if len(x) == 5]
                return None if list(v["hsp"]) == [x[4] for x in lab] and pw.close(np.ravel(v["coords_frac"]), [float(y) for x in lab for y in x[:3]]) else "labels"
            n, box, z, co, mag = parse_ac(C)
        except (ValueError, IndexError, StopIteration, ZeroDivisionError) as e:
            return f"a value, though the text holds none ({type(e).__name__})"
        if name == "mag":
            if "MAGNETIC" not in P.upper():
                return None if len(v) == n and not np.any(v) else f"{len(v)} moments of {n} atoms without a magnetic section"
            try:
                mag = [float(x[1]) for x in mag]
            except (ValueError, IndexError):
                return "moments, though the text is cut in them"
            return None if pw.close(np.ravel(v), mag) else f"moments {list(v)[:4]}... of {n} atoms"
        m, b, t, c = v
        if m != n or len(t) != n or list(map(int, np.ravel(t))) != z:
            return f"{m} atoms, {len(t)} elements; the file declares {n}"
        c = np.ravel(c)
        if c.shape != (3 * n,):
            return f"{c.size} coordinates of {n} atoms"
        if np.size(b) != 9 or len(box) != 9 or not np.allclose(np.ravel(b), box, rtol=1e-12, atol=1e-12):
            return "lattice"
        d = c - np.array(co)
        if name == "struct":
            d = d - np.round(d)
        return None if np.all(np.abs(d) < 1e-9) else "coordinates"

    def nontrivial(self, case, info):
        return bool(info["injected"])

    def shrink(self, case):
        if len(case["rd"]) > 1:
            for i in range(len(case["rd"])):
                yield {**case, "rd": [case["rd"][i]]}
        if case["faults"]:
            yield {**case, "faults": []}
        if case["k"] != "own":
            T = readers.text(case["doc"])
            for d in readers.shrink(case["doc"]):
                t = readers.text(d)
                for c in ([case["cut"]] if case["cut"] is None else
                          sorted({x for x in (case["cut"], len(t) - (len(T) - case["cut"])) if 0 <= x <= len(t)})):
                    yield {**case, "doc": d, "cut": c}


if __name__ == "__main__":
    driver.main(C21)
