"""Writers of input files: objects, the call under test, and the judgement of the file."""
import numpy as np

from . import pwfiles as pw
from .collfs import atom_config_differs
from .pwfiles import R

KINDS = ["pwmat", "mag", "poscar", "highk", "genkpt", "vext", "dosin", "slurm"]


def load():
    g = globals()
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.calculation.kpath.kpathSampler import KpathSampler
    from matersdk.io.pwmat.input.gen_vext import GenVext
    from matersdk.io.pwmat.input.dos_input import DosInput
    from matersdk.hpc.slurm.job import Job
    from pymatgen.core import Structure
    from pymatgen.symmetry.kpath import KPathSetyawanCurtarolo
    g.update({k: v for k, v in locals().items() if k != "g"})


def gen(r, kind, tag):
    p = {"k": kind, "s": f"{tag}.{r.randrange(10**6)}"}
    if kind in ("pwmat", "mag", "poscar"):
        p["z"] = pw.gen_z(r, nmax=r.choice([2, 5, 9]))
        if r.random() < .02:
            p["z"] = p["z"] + [p["z"][-1]] * r.choice([95, 130])
    elif kind in ("highk", "genkpt"):
        p["lat"] = r.choice(["cub", "hex", "tet", "ort", "fcc", "bcc", "mono", "tri"])
        p["dim"] = r.choice([2, 3, 3])
        p["z"] = r.sample(sorted(pw.ELEMENTS), r.choice([1, 2]))
        p["density"] = r.choice([0.01, 0.02, 0.05])
    return p


def shrink(p):
    if len(p.get("z", [])) > 2:
        yield {**p, "z": p["z"][:2]}


def _lattice(p, r):
    a, b, c = r.uniform(3, 5), r.uniform(5.2, 7), r.uniform(7.5, 9)
    t = p["lat"]
    if t == "cub":
        return np.eye(3) * a
    if t == "hex":
        return np.array([[a, 0, 0], [-a / 2, a * 3 ** .5 / 2, 0], [0, 0, c]])
    if t == "tet":
        return np.diag([a, a, c])
    if t == "ort":
        return np.diag([a, b, c])
    if t == "fcc":
        return a / 2 * np.array([[0., 1, 1], [1, 0, 1], [1, 1, 0]]) * 1.3
    if t == "bcc":
        return a / 2 * np.array([[-1., 1, 1], [1, -1, 1], [1, 1, -1]]) * 1.3
    if t == "mono":
        return np.array([[a, 0, 0], [0, b, 0], [-1.1, 0, c]])
    return np.array([[a, 0, 0], [.7, b, 0], [.9, 1.1, c]])


class Obj:
    """The reference content of one document."""
    def __init__(self, p):
        self.p, k = p, p["k"]
        r = R("writer", p["s"])
        if k in ("pwmat", "mag", "poscar"):
            n = len(p["z"])
            self.z = list(p["z"])
            if k == "poscar":
                self.z.sort()
            self.box = np.array([[r.uniform(3, 12) if i == j else r.choice([0, r.uniform(-2, 2)]) for j in range(3)] for i in range(3)])
            self.frac = np.array([[r.choice([0, .5, r.random(), r.uniform(-.4, 1.4)]) for _ in range(3)] for _ in range(n)])
            self.mag = [round(r.uniform(-5, 5), 2) for _ in range(n)]
        elif k in ("highk", "genkpt"):
            self.box = _lattice(p, r)
            self.frac = np.array([[0., 0, 0], [.5, .5, .5]][:len(p["z"])])
            self.z = list(p["z"])
        elif k == "vext":
            self.c = [round(r.uniform(0, 1), r.choice([1, 3, 6])) for _ in range(3)]
            self.t = r.choice([1, 2, 3])
            self.a = [r.choice([0.0, round(r.uniform(-1, 1), 4), r.uniform(-1e-5, 1e-5), r.uniform(-100, 100)]) for _ in range({1: 3, 2: 6, 3: 2}[self.t])]
            self.add = r.random() < .5
        elif k == "dosin":
            self.v = (r.choice([0, 1]), r.choice([0, 1]), round(r.uniform(.001, .5), r.choice([2, 3, 5])), r.choice([10, 4000, 123456, 10**11]),
                      [r.choice([1, 6, 12, 100]) for _ in range(3)])
        else:
            self.v = {"partition": r.choice(["gpu", "cpu_long", "3080ti,3090"]), "name": r.choice(["scf", "job 1", "relax-" + "x" * r.choice([1, 40])]),
                      "num_nodes": r.randint(1, 9), "num_tasks_per_node": r.randint(1, 64), "threads_per_core": r.choice([1, 2]),
                      "num_gpus": r.randint(0, 8), "num_gpus_per_task": r.randint(0, 4)}
            self.cmd = r.choice(["mpirun PWmat", "module load x\nmpirun -np 4 PWmat | tee log\n", "echo done"])

    def build(self):
        """The library object (not a file operation)."""
        k, p = self.p["k"], self.p
        sp = [pw.ELEMENTS[z] for z in getattr(self, "z", [])]
        if k in ("pwmat", "mag", "poscar"):
            return DStructure(lattice=self.box, species=sp, coords=self.frac, site_properties={"magmom": list(self.mag)})
        if k in ("highk", "genkpt"):
            return KpathSampler(structure=DStructure(lattice=self.box, species=sp, coords=self.frac), dimension=p["dim"])
        if k == "vext":
            return GenVext(list(self.c), self.t, self.add, *self.a)
        if k == "dosin":
            return DosInput(self.v[0], self.v[1], self.v[2], self.v[3], list(self.v[4]))
        cmd = self.cmd

        class MyJob(Job):
            def attach_command(self):
                return cmd
        return MyJob(**self.v)

    def write(self, obj, path):
        k = self.p["k"]
        if k == "pwmat":
            return obj.to(file_path=path, file_format="pwmat")
        if k == "mag":
            return obj.to(file_path=path, file_format="pwmat", include_magnetic_moments=True)
        if k == "poscar":
            return obj.to(file_path=path, file_format="poscar")
        if k == "highk":
            obj.HIGHK_file_path = path
            return obj.output_HIGHK_file()
        if k == "genkpt":
            obj.gen_kpt_path = path
            return obj.output_gen_kpt(density=self.p["density"])
        return obj.to(path)

    def _kref(self):
        st = Structure(self.box, [pw.ELEMENTS[z] for z in self.z], self.frac)
        kp = KPathSetyawanCurtarolo(st, symprec=0.1, angle_tolerance=5, atol=1e-5).kpath
        nm = lambda x: "G" if x == "\\Gamma" else x
        pts = {nm(k): np.array(v, dtype=float) for k, v in kp["kpoints"].items()}
        paths = [[nm(x) for x in q] for q in kp["path"]]
        if self.p["dim"] == 2:
            pts = {k: v for k, v in pts.items() if v[-1] == 0}
            paths = [[x for x in q if x in pts] for q in paths]
            paths = [q for q in paths if len(q) > 1]
        return st, pts, paths

    def differs(self, data):
        try:
            return self._differs(data.decode())
        except (ValueError, IndexError, UnicodeDecodeError) as e:
            return f"malformed ({e})"

    def _differs(self, text):
        k = self.p["k"]
        if k in ("pwmat", "mag"):
            return atom_config_differs(text, self.box, self.z, self.frac, self.mag if k == "mag" else None)
        if k == "poscar":
            st = Structure.from_str(text, fmt="poscar")
            if np.max(np.abs(st.lattice.matrix - self.box)) > 1e-5 or [s.Z for s in st.species] != self.z:
                return "lattice or species differ"
            if len([l for l in text.split("\n") if l.strip()]) != 8 + len(self.z):
                return "line count"
            d = st.frac_coords - self.frac
            return None if np.max(np.abs(d - np.round(d))) < 1e-5 else "coordinates differ"
        L = text.split("\n")
        if k in ("highk", "genkpt"):
            st, pts, paths = self._kref()
            if L[-1] != "":
                return "last line not terminated"
            if st.formula not in L[0]:
                return f"header {L[0]!r} does not name {st.formula}"
            L = L[1:-1]

            def pt(l):
                w = l.split()
                if len(w) != 4:
                    raise ValueError(f"line {l!r}")
                return w[3], np.array([float(x) for x in w[:3]])
            if k == "highk":
                got = [pt(l) for l in L]
                if sorted(n for n, _ in got) != sorted(pts):
                    return f"points {[n for n, _ in got]} instead of {sorted(pts)}"
                for n, x in got:
                    if np.max(np.abs(x - pts[n])) > 6e-7:
                        return f"point {n} at {x}"
                return None
            want = [(q[i], q[i + 1]) for q in paths for i in range(len(q) - 1)]
            if len(L) != 3 * len(want):
                return f"{len(L)} lines for {len(want)} segments"
            rec = st.lattice.reciprocal_lattice_crystallographic.matrix
            for i, (a, b) in enumerate(want):
                n = float(L[3 * i])
                (na, xa), (nb, xb) = pt(L[3 * i + 1]), pt(L[3 * i + 2])
                if (na, nb) != (a, b) or np.max(np.abs(xa - pts[a])) > 6e-7 or np.max(np.abs(xb - pts[b])) > 6e-7:
                    return f"segment {i} is {na}-{nb}, not {a}-{b}"
                d = (pts[b] - pts[a]).reshape(1, 3)
                ok = [np.linalg.norm(d @ rec) / self.p["density"], np.linalg.norm(d * rec) / self.p["density"]]
                if n != int(n) or not any(np.ceil(x - 1e-9) <= n <= np.ceil(x + 1e-9) for x in ok):
                    return f"segment {i} has {n} points"
            return None
        if k == "vext":
            if L[-1] != "" or len(L) != 5:
                return f"{len(L)} lines"
            kv = {}
            for l in L[:4]:
                a, b = l.split("=")
                if a.strip() in kv:
                    return f"key {a} twice"
                kv[a.strip()] = b.split()
            if [float(x) for x in kv.get("VR_CENTER", [])] != self.c or [float(x) for x in kv.get("VR_DETAIL", [])] != self.a:
                return f"center or detail differ: {kv}"
            if kv.get("VR_TYPE") != [str(self.t)] or kv.get("ADD_VR") != ["T" if self.add else "F"]:
                return f"type or flag differ: {kv}"
            return None
        if k == "dosin":
            L = [l.split("#")[0].split() for l in L if l.strip()]
            if len(L) != 5:
                return f"{len(L)} lines instead of 5"
            m, me, sm, ne, gr = self.v
            if L[0] != [str(m)] or L[1] != [str(me)] or len(L[2]) != 2 or abs(float(L[2][0]) - sm) > 6e-6 or L[2][1] != str(ne):
                return f"settings differ: {L}"
            if [float(x) for x in L[3]] != gr or L[4] != ["0"]:
                return f"grid or last line differ: {L}"
            return None
        v = self.v
        if L[0] != "#!/bin/bash":
            return "no shebang"
        want = {f"--partition={v['partition']}", f"--job-name={v['name']}", f"--nodes={v['num_nodes']}", f"--ntasks-per-node={v['num_tasks_per_node']}",
                f"--threads-per-core={v['threads_per_core']}", f"--gres=gpu:{v['num_gpus']}", f"--gpus-per-task={v['num_gpus_per_task']}"}
        i = 1
        got = []
        while i < len(L) and (L[i].startswith("#SBATCH ") or (not L[i].strip() and i < 12)):
            if L[i].strip():
                got.append(L[i][8:].strip())
            i += 1
        if sorted(got) != sorted(want):
            return f"directives {got}"
        if "\n".join(L[i:]).strip("\n") != self.cmd.strip("\n"):
            return f"command {L[i:]}"
        return None
