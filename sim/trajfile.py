"""Analyses that start from a trajectory file, with their definitions on the file's frames."""
import numpy as np

from . import coll, pwfiles as pw, readers as rd

FUNCS = ["msd", "msd_c", "di", "avg", "pair", "coll", "maxmv", "maxcoll", "maxel", "idx", "slice"]
POOLED = ("msd", "msd_c", "di", "avg", "maxcoll", "maxel")


def load():
    g = globals()
    from matersdk.io.pwmat.output.movement import Movement
    from matersdk.data.struct_collection import StructCollection
    from matersdk.feature.avg.msd import Msd, DiffractionIntensity
    from matersdk.feature.avg.avgbond import AvgBond, PairBond
    g.update({k: v for k, v in locals().items() if k != "g"})


def gen_func(r, t, name=None):
    name = name or r.choice(FUNCS)
    els = sorted({pw.ELEMENTS[z] for z in t["z"]})
    f = {"f": name, "q": round(r.uniform(.1, 1.5), 3), "rcut": round(r.uniform(2, 8), 3),
         "scal": r.choice([[3, 3, 3], [3, 3, 3], [1, 1, 1], [3, 3, 1], [1, 3, 3]]),
         "e1": r.choice(els), "e2": r.choice(els), "a": r.randrange(len(t["z"])), "b": r.randrange(len(t["z"])), "k": r.randrange(10**6)}
    if name == "maxel":
        r.shuffle(els)
        if r.random() < .3:
            els.append(r.choice([e for e in pw.ELEMENTS.values() if e not in els]))
        f["els"] = els
    if name == "avg" and r.random() < .1:
        f["e2"] = r.choice([e for e in pw.ELEMENTS.values() if e not in els])
    return f


def indices(f, n):
    r = pw.R("idx", f["k"])
    return [r.randrange(n) for _ in range(r.choice([1, 2, n]))]


def cut(f, n):
    r = pw.R("cut", f["k"])
    a = r.randrange(n)
    return a, r.randint(a + 1, n), r.choice([1, 1, 2])


def run(f, path):
    k = f["f"]
    if k in ("msd", "msd_c"):
        m = Msd(trajectory=Movement(path))
        return m.calc_msd() if k == "msd" else m.calc_msd_sub_centroid()
    if k == "di":
        return DiffractionIntensity(trajectory=Movement(path), q=f["q"]).calc_di()
    if k == "avg":
        return AvgBond(path, f["e1"], f["e2"], f["rcut"]).get_frames_avg_bond(scaling_matrix=f["scal"])
    if k == "pair":
        return PairBond(path, f["a"], f["b"]).get_frames_pair_bond()
    if k == "maxmv":
        return Movement(path).get_max_num_nbrs_real(rcut=f["rcut"], scaling_matrix=f["scal"])
    c = StructCollection.from_trajectory_s(Movement(path))
    if k == "maxcoll":
        return c.get_max_num_nbrs_real(rcut=f["rcut"], scaling_matrix=f["scal"])
    if k == "maxel":
        return c.get_max_num_nbrs_real_element(rcut=f["rcut"], nbr_elements=f["els"], scaling_matrix=f["scal"])
    n = len(c)
    if k == "idx":
        c = StructCollection.from_indices(c, indices(f, n))
    elif k == "slice":
        a, b, s = cut(f, n)
        c = c[a:b:s]
    return (n, c)


class FRef(coll.Ref):
    """Definitions on the frames of a file."""
    def __init__(self, fr):
        self.fr, self.nf, self.n = fr, len(fr), len(fr[0].z)
        self.box = [f.box.reshape(3, 3) for f in fr]
        self.frac = [f.coords.reshape(-1, 3) for f in fr]
        self.zs = [f.z for f in fr]

    def bonds(self, i, c, rcut, scal, z):
        im = self.images(i, scal)
        out = []
        for a in range(self.n):
            if self.zs[i][a] == z:
                out += list(np.linalg.norm(self.cart(i)[a] + im - self.cart(i)[c], axis=1))
        return [d for d in out if d > 1e-9]

    def nbrs(self, i, c, rcut, scal, z=None, strict=True):
        self.z = self.zs[i]
        return super().nbrs(i, c, rcut, scal, z)

    def avg(self, f):
        inv = {s: z for z, s in pw.ELEMENTS.items()}
        out = []
        for i in range(self.nf):
            d = [x for c in range(self.n) if self.zs[i][c] == inv[f["e1"]] for x in self.bonds(i, c, f["rcut"], f["scal"], inv[f["e2"]])]
            if any(abs(x - f["rcut"]) < 1e-7 for x in d):
                return None
            d = [x for x in d if x < f["rcut"]]
            out.append(sum(d) / len(d) if d else float("nan"))
        return out


def _list(v, w):
    v = [float(x) for x in np.ravel(np.asarray(v, dtype=float))]
    if len(v) != len(w):
        return f"{len(v)} values instead of {len(w)}"
    for i, (a, b) in enumerate(zip(v, w)):
        if np.isnan(b) != np.isnan(a) or abs(a - b) > 1e-9 * max(abs(b), 1e-3):
            return f"value {i} is {a}, the definition gives {b}"


def differs(f, v, fr):
    """None if v is the result on exactly the frames fr."""
    try:
        return _differs(f, v, fr)
    except (TypeError, AttributeError, ValueError, IndexError, KeyError) as e:
        return f"malformed result ({type(e).__name__}: {e})"


def _differs(f, v, fr):
    k = f["f"]
    ref = FRef(fr)
    if k in ("msd", "msd_c", "di"):
        w = ref.msd_c() if k == "msd_c" else ref.msd()
        return _list(v, [float(np.exp(-f["q"] ** 2 * x / 3)) for x in w] if k == "di" else w)
    if k == "avg":
        w = ref.avg(f)
        return None if w is None else _list(v, w)
    if k == "pair":
        return _list(v, [float(np.linalg.norm(ref.cart(i)[f["a"]] - ref.cart(i)[f["b"]])) for i in range(ref.nf)])
    if k in ("maxmv", "maxcoll"):
        w = ref.max_nbrs(f["rcut"], f["scal"])
        return None if w is None or int(v) == w else f"{v} instead of {w}"
    if k == "maxel":
        w = ref.max_nbrs_el(f["rcut"], f["scal"], f["els"])
        return None if w is None or {a: int(x) for a, x in v.items()} == w else f"{v} instead of {w}"
    n, c = v
    if n != len(fr):
        return f"a collection of {n} structures instead of {len(fr)}"
    want = fr
    if k == "idx":
        want = [fr[i] for i in indices(f, n)]
    elif k == "slice":
        a, b, s = cut(f, n)
        want = fr[a:b:s]
    if len(c) != len(want):
        return f"{len(c)} structures instead of {len(want)}"
    vir = c.virial_tensors_array
    if all(x.virial is None for x in want) and not np.any(np.asarray(vir, dtype=float)):
        vir = []                                # however "no virial" is represented
    return rd.info_differs(want, (c.structures_lst, c.total_energys_array, c.potential_energys_array, c.kinetic_energys_array, vir))
