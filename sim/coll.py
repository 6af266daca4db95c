"""Structure collections and trajectories (inputs of the parallel analyses and exports)
with reference implementations written from the definitions."""
import numpy as np

from . import pwfiles as pw
from .pwfiles import R


POISON_ATTRS = ("cart_coords", "frac_coords", "species", "sites", "lattice", "num_sites")
EXC = {"RuntimeError": RuntimeError, "ValueError": ValueError, "MemoryError": MemoryError, "LinAlgError": np.linalg.LinAlgError,
       "AssertionError": AssertionError, "IndexError": IndexError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError,
       "TypeError": TypeError, "AttributeError": AttributeError, "OSError": OSError, "FloatingPointError": FloatingPointError,
       "StopIteration": StopIteration, "NotImplementedError": NotImplementedError}


def load():
    g = globals()
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.publicLayer.traj import Trajectory
    from matersdk.data.struct_collection import StructCollection
    from matersdk.feature.avg.msd import Msd, DiffractionIntensity

    class Traj(Trajectory):
        """An in-memory trajectory behind the library's own interface."""
        def __init__(self, structs, info=None):
            self.structs, self.info = structs, info

        def get_all_frame_structures(self):
            return self.structs

        def get_all_frame_structures_info(self):
            return self.info

        def get_frame_structure(self, idx_frame):
            return self.structs[idx_frame]

        def get_chunksize(self):
            return [1] * len(self.structs)

        def get_chunkslice(self):
            return list(range(len(self.structs) + 1))

        def _get_frame_str(self, idx_frame):
            return ""

        def get_frame_energy(self, idx_frame):
            return 0.0

        def get_frame_virial(self, idx_frame):
            return np.zeros((3, 3))

        def get_frame_volume(self, idx_frame):
            return self.structs[idx_frame].volume

        def get_max_num_nbrs_real(self, *a, **k):
            return 0

    class Poison(DStructure):
        """A frame whose computation fails: using one of its quantities raises."""
        def __getattribute__(self, name):
            if name in POISON_ATTRS:
                bad = object.__getattribute__(self, "__dict__").get("_poison")
                if bad and name in bad[0]:
                    raise EXC[bad[1]]("poisoned frame")
            return super().__getattribute__(name)
    Poison.__qualname__ = "Poison"
    Poison.__module__ = Traj.__module__ = __name__
    Traj.__qualname__ = "Traj"
    g.update({k: v for k, v in locals().items() if k != "g"})


def gen(r, tag, nf=None, nmax=4):
    z = pw.gen_z(r, nmax=nmax)
    return {"s": f"{tag}.{r.randrange(10**6)}", "z": z, "nf": nf if nf is not None else r.choice([1, 2, 3, 4, 5, 7, 9]),
            "virial": r.random() < .6, "eatom": r.random() < .6, "small": r.random() < .5, "out": r.random() < .15}


def long(r, p, *nfs):
    """Rarely: far more frames (of one or two atoms) than workers."""
    if r.random() < .02:
        p["nf"], p["z"] = r.choice(nfs), p["z"][:2]
    return p


def shrink(p):
    if p["nf"] > 1:
        yield {**p, "nf": 1}
        yield {**p, "nf": p["nf"] - 1}
    if len(p["z"]) > 2:
        yield {**p, "z": p["z"][:2]}
    for k in ("virial", "eatom", "out"):
        if p.get(k):
            yield {**p, k: False}


class Ref:
    """The frames of a collection as plain arrays."""
    def __init__(self, p):
        r = R("coll", p["s"])
        n = len(p["z"])
        self.p, self.z, self.nf, self.n = p, list(p["z"]), p["nf"], n
        a0 = r.uniform(2.5, 4) if p["small"] else r.uniform(4, 7)
        self.box, self.frac, self.force, self.eatom, self.e, self.virial = [], [], [], [], [], []
        for _ in range(p["nf"]):
            a = a0 + r.uniform(-.3, .3)
            self.box.append(np.array([[a if i == j else r.uniform(-.3, .3) for j in range(3)] for i in range(3)]))
            self.frac.append(np.array([[r.random() for _ in range(3)] for _ in range(n)]))
            self.force.append(np.array([[r.uniform(-5, 5) for _ in range(3)] for _ in range(n)]))
            self.eatom.append(np.array([r.uniform(-9, 9) if p["eatom"] else 0.0 for _ in range(n)]))
            self.e.append([r.uniform(-900, 0) for _ in range(3)])
            self.virial.append(np.array([[r.uniform(-9, 9) if p["virial"] else 0.0 for _ in range(3)] for _ in range(3)]))
        if p.get("out"):                                    # atoms outside the cell, as unwrapped trajectories have them
            for f in self.frac:
                for i in range(n):
                    for j in range(3):
                        f[i][j] += r.choice([0, 0, 0, -1, 1, 2])
        if p.get("origin") is not None:
            for f in self.frac:
                f[p["origin"] % n] = 0.0
        # sometimes the first frame alone has no virial / atomic energies
        if p.get("first0") and p["nf"] > 1:
            self.virial[0] = np.zeros((3, 3))
            self.eatom[0] = np.zeros(n)

    def cart(self, i):
        return self.frac[i] @ self.box[i]

    def struct(self, i, poison=None):
        s = DStructure(
            lattice=self.box[i], species=[pw.ELEMENTS[z] for z in self.z], coords=self.frac[i],
            site_properties={"atomic_force": [list(x) for x in self.force[i]], "atomic_energy": [[x] for x in self.eatom[i]],
                             "magmom": [0.0] * self.n})
        if poison:
            if poison[0] == ["short"]:
                s.remove_sites([self.n - 1])
            else:
                s.__class__ = Poison
                s.__dict__["_poison"] = poison
        return s

    def structs(self, poison=None):
        """poison: {frame: [attributes, exception]}"""
        poison = poison or {}
        return [self.struct(i, poison.get(str(i))) for i in range(self.nf)]

    def collection(self, poison=None):
        e = np.array(self.e).reshape(-1, 3)
        c = StructCollection(structures_lst=self.structs(), total_energys_array=e[:, 0].copy(),
                             potential_energys_array=e[:, 1].copy(), kinetic_energys_array=e[:, 2].copy(),
                             virial_tensors_array=np.array(self.virial))
        if poison:
            c.structures_lst = self.structs(poison)
        return c

    # definitions
    def msd(self):
        return [float(np.sum((self.cart(i) - self.cart(i - 1)) ** 2) / self.n) for i in range(1, self.nf)]

    def msd_c(self):
        out = []
        for i in range(1, self.nf):
            a, b = self.cart(i), self.cart(i - 1)
            d = (a - a.mean(axis=0)) - (b - b.mean(axis=0))
            out.append(float(np.sum(d ** 2) / self.n))
        return out

    def images(self, i, scal):
        sh = [np.arange(k) - (k - 1) // 2 for k in scal]
        g = np.array([[x, y, w] for x in sh[0] for y in sh[1] for w in sh[2]], dtype=float)
        return g @ self.box[i]

    def nbrs(self, i, c, rcut, scal, z=None, strict=True):
        """Number of neighbours of atom c within rcut in the supercell; None if too close to call."""
        im = self.images(i, scal)
        k = 0
        for a in range(self.n):
            if z is not None and self.z[a] != z:
                continue
            d = np.linalg.norm(self.cart(i)[a] + im - self.cart(i)[c], axis=1)
            if np.any(np.abs(d - rcut) < 1e-7):
                return None
            k += int(np.sum(d < rcut))
        if z is None or self.z[c] == z:
            k -= 1
        return k

    def max_nbrs(self, rcut, scal):
        v = [self.nbrs(i, c, rcut, scal) for i in range(self.nf) for c in range(self.n)]
        return None if None in v else max(v)

    def max_nbrs_el(self, rcut, scal, els):
        inv = {s: z for z, s in pw.ELEMENTS.items()}
        out = {}
        for e in els:
            v = [self.nbrs(i, c, rcut, scal, inv[e]) for i in range(self.nf) for c in range(self.n)]
            if None in v:
                return None
            out[e] = max(v)
        return out


FUNCS = ["msd", "msd_c", "di", "max", "maxel"]


def analyse(ref, f, poison=None):
    """Run one real parallel analysis."""
    name = f["f"]
    if name in ("msd", "msd_c", "di"):
        t = Traj(ref.structs(poison))
        if name == "di":
            return DiffractionIntensity(trajectory=t, q=f["q"]).calc_di()
        m = Msd(trajectory=t)
        return m.calc_msd() if name == "msd" else m.calc_msd_sub_centroid()
    c = ref.collection(poison)
    if name == "max":
        return c.get_max_num_nbrs_real(rcut=f["rcut"], scaling_matrix=f["scal"])
    return c.get_max_num_nbrs_real_element(rcut=f["rcut"], nbr_elements=f["els"], scaling_matrix=f["scal"])


def analysis_differs(ref, f, v):
    name = f["f"]
    try:
        if name in ("msd", "msd_c", "di"):
            w = ref.msd_c() if name == "msd_c" else ref.msd()
            if name == "di":
                w = [float(np.exp(-f["q"] ** 2 * x / 3)) for x in w]
            v = [float(x) for x in np.ravel(np.asarray(v, dtype=float))]
            if len(v) != len(w):
                return f"{len(v)} values instead of {len(w)}"
            for i, (a, b) in enumerate(zip(v, w)):
                if abs(a - b) > 1e-9 * max(abs(b), 1e-3):
                    return f"value {i} is {a}, the definition gives {b}"
            return None
        if name == "max":
            w = ref.max_nbrs(f["rcut"], f["scal"])
            return None if w is None or int(v) == w else f"{v} instead of {w}"
        w = ref.max_nbrs_el(f["rcut"], f["scal"], f["els"])
        return None if w is None or {k: int(x) for k, x in v.items()} == w else f"{v} instead of {w}"
    except (TypeError, AttributeError, ValueError) as e:
        return f"malformed result ({e})"


def gen_func(r, p):
    name = r.choice(FUNCS)
    els = sorted({pw.ELEMENTS[z] for z in p["z"]})
    r.shuffle(els)
    if r.random() < .3:
        els.append("He" if False else r.choice([e for e in pw.ELEMENTS.values() if e not in els]))
    return {"f": name, "q": round(r.uniform(.1, 1.5), 3), "rcut": round(r.uniform(1.5, 5), 3),
            "scal": r.choice([[3, 3, 3], [3, 3, 3], [1, 1, 1], [3, 3, 1], [1, 3, 3]]), "els": els}
