"""Every reader of MaterSDK with a generator of its file and the exact expected values.

spec = {"k": kind, "s": seed, ...}; `text(spec)` is the file, `expect(spec)` the values,
`read(spec, path)` runs the real reader, `differs(spec, value)` compares."""
import numpy as np

from . import pwfiles as pw
from .pwfiles import R

DENSITIES = (.02, .05, .11)
KINDS = ["mv", "mv1", "ac", "dstruct", "inkpt", "report", "fermi", "dos", "fat", "infoset", "mvt", "kmesh"]
SPD = ["s", "p", "d", "2s", "2p", "3px", "4dxy", "4dz2"]
EL = ["S", "Si", "Sc", "C", "Co", "Cl", "N", "Ni", "Mo", "O", "F", "Fe", "H", "Te", "Ti"]


SIDE = None            # companion files of the current run: Fermi energy, structure
BOHR = 0.529177249
KEEP = None            # when a list: readers are kept alive in it


def _k(x):
    if KEEP is not None:
        KEEP.append(x)
    return x


SHIFT = 3.0        # the gap of the generated reports lies around this energy


def side(sim, n=0):
    """The companion files some queries need (OUT.FERMI, atom.config), in their own folder."""
    global SIDE
    r = R("side", str(sim.seed).split("+")[0], n)
    v = f"{SHIFT + r.uniform(-.8, .8):.3f}"
    ac = pw.gen_ac(r, "side")
    SIDE = {"ef": float(v), "box": pw.AtomConfig(ac).box, "fermi": sim.path("side/OUT.FERMI"), "ac": sim.path("side/atom.config")}
    sim.write("side/OUT.FERMI", f"  Fermi energy = {v} eV\n")
    sim.write("side/atom.config", pw.AtomConfig(ac).text())


def same_size(r, spec, tries=60):
    """A different document of exactly the same length, if one is found: either other values
    in the same layout, or another layout padded with blanks at the end of its first line."""
    n = len(text(spec))
    best = None
    for k in range(tries):
        v = dict(spec)
        if k % 3 == 0:
            v = {**variant(r, spec), "pad": 0}
            m = n - len(text(v))
            if m < 0:
                continue
            v["pad"] = m
        elif "t" in v:
            v["t"] = {**v["t"], "s": v["t"]["s"].split("~")[0] + f"~{r.randrange(10**6)}"}
        else:
            v["s"] = v["s"].split("~")[0] + f"~{r.randrange(10**6)}"
        best = v
        if len(text(v)) == n and text(v) != text(spec):
            return v
    return best or variant(r, spec)


def load():
    g = globals()
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    from matersdk.io.pwmat.utils.acextractor import ACExtractor
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.pwmat.input.inkpt import Inkpt
    from matersdk.io.pwmat.output.report import Report
    from matersdk.io.pwmat.output.outfermi import OutFermi
    from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
    from matersdk.io.pwmat.output.fatabandstructureTxt import FatbandStructure
    from matersdk.data.infoset import InfoSet
    from matersdk.calculation.kpoints.kmesh import KMesh
    from matersdk.io.pwmat.output.movement import Movement
    g.update({k: v for k, v in locals().items() if k != "g"})


def gen(r, kind, tag):
    s = f"{tag}.{r.randrange(10**6)}"
    if kind in ("mv", "mv1", "infoset", "mvt"):
        return {"k": kind, "t": pw.gen_traj(r, tag, nmax=5)}
    if kind in ("ac", "dstruct", "kmesh"):
        p = {"k": kind, **pw.gen_ac(r, tag)}
        if kind == "kmesh":
            p.pop("wide", 0)
        return p
    big = r.random() < .02                     # the sizes of real calculations
    if kind == "inkpt":
        return {"k": kind, "s": s, "n": r.choice([40, 101, 130]) if big else r.randint(1, 8), "hsp": r.random() < .7}
    if kind == "report":
        return {"k": kind, "s": s, "nb": r.choice([40, 66, 101]) if big else r.randint(2, 13), "nk": r.choice([11, 29]) if big else r.randint(1, 5),
                "spin": r.random() < .4, "metal": r.random() < .2}
    if kind == "fermi":
        return {"k": kind, "s": s}
    if kind == "dos":
        return {"k": kind, "s": s, "ne": r.randint(1, 4), "n": r.choice([120, 1050]) if big else r.randint(1, 12), "hash": r.random() < .7,
                "cap": r.random() < .7, "dup": r.random() < .4}
    return {"k": "fat", "s": s, "ne": r.randint(1, 4), "nb": r.choice([11, 24]) if big else r.randint(2, 4), "nk": r.choice([12, 30]) if big else r.randint(1, 5)}


def variant(r, spec):
    """Another document of the same kind, often with the same shape and length."""
    v = dict(spec)
    if "t" in v:
        v["t"] = {**v["t"], "s": v["t"]["s"].split("~")[0] + f"~{r.randrange(10**6)}"}
        if r.random() < .4:
            v["t"]["nf"] = r.choice([1, 2, 3])
        if r.random() < .3:
            v["t"]["z"] = pw.gen_z(r, nmax=5)
        return v
    v["s"] = v["s"].split("~")[0] + f"~{r.randrange(10**6)}"
    if r.random() < .4:
        for k in ("n", "nb", "nk", "ne"):
            if k in v:
                v[k] = max(2 if k == "nb" else 1, v[k] + r.choice([-1, 0, 1]))
        if "z" in v and r.random() < .7:
            v["z"] = pw.gen_z(r)
        if "mag" in v and r.random() < .5:
            v["mag"] = not v["mag"]
    return v


def shrink(spec):
    if "t" in spec:
        for t in pw.shrink_traj(spec["t"]):
            yield {**spec, "t": t}
        return
    for k in ("n", "nb", "nk", "ne"):
        lo = 2 if k == "nb" else 1
        if spec.get(k, 0) > lo:
            yield {**spec, k: lo}
    for k in ("mag", "hsp", "spin", "dup", "metal", "wide", "fixed", "more", "upper"):
        if spec.get(k):
            yield {**spec, k: False}
    if len(spec.get("z", ())) > 1:
        yield {**spec, "z": spec["z"][:1]}


# ------------------------------------------------------------------ documents
def _inkpt(p):
    r = R("inkpt", p["s"])
    rows, hsp = [], []
    for i in range(p["n"]):
        c = [f"{r.uniform(-.5, .5):.6f}" for _ in range(3)]
        w = f"{r.uniform(0, 1):.6f}"
        lab = r.choice(["G", "M", "K", "A", "L", "H", "GAMMA", "X1", "X|U", "S_0"]) if p["hsp"] and r.random() < .5 else None
        rows.append((c, w, lab))
        if lab:
            hsp.append((i, lab, [float(x) for x in c]))
    iflag, a0 = r.choice([1, 2]), r.choice([0, 1, 3])
    L = [f"          {p['n']}", f"    {iflag}   {a0}"]
    for c, w, lab in rows:
        L.append("    " + "   ".join(c) + "   " + w + (f"   {lab}" if lab else ""))
    e = {"iflag": iflag, "a0": a0, "n": p["n"], "coords": [[float(x) for x in c] for c, _, _ in rows],
         "ih": [i for i, _, _ in hsp], "w": [float(w) for _, w, _ in rows], "hsp": [l for _, l, _ in hsp], "hc": [c for _, _, c in hsp]}
    return "\n".join(L) + "\n", e


def _report(p):
    r = R("report", p["s"])
    nb, nk = p["nb"], p["nk"]
    occ = r.randint(1, nb - 1)
    name = r.choice(["atom.config", "final.config", "POSCAR.config"])
    L = [f" IN.ATOM              =  {name}", " ECUT    =   50.0", f" NUM_BAND  =    {nb}", " XCFUNCTIONAL = PBE",
         f" NUM_KPT   =    {nk}", " NITER0_1 = 6 4 3"]
    e = {"nb": nb, "nk": nk, "name": name, "up": [], "down": [], "metal": bool(p.get("metal")) and nk > 1}
    for sp in ["up", "down"] if p["spin"] else ["up"]:
        for k in range(nk):
            L += [f" kpt= {k + 1:4d}", " eigen energies, in eV"]
            v = sorted(r.uniform(-20, -1) for _ in range(occ)) + sorted(r.uniform(1, 20) for _ in range(nb - occ))
            if e["metal"]:                    # the highest occupied band crosses the Fermi level
                v[occ - 1] = r.uniform(-1, -.9) if k % 2 else r.uniform(.9, 1)
            v = [f"{x + SHIFT:.4f}" for x in v]
            for i in range(0, nb, 5):
                L.append("    " + "    ".join(v[i:i + 5]))
            L.append(" *********************************")
            e[sp].append([float(x) for x in v])
    L.append(" total computation time (sec) = 42.0")
    return "\n".join(L) + "\n", e


def _fermi(p):
    r = R("fermi", p["s"])
    v = f"{r.uniform(-9, 9):.6f}"
    return f"  Fermi energy = {v} eV\n", {"e": float(v)}


def _cols(r, ne, dup):
    els = r.sample(EL, ne)
    if ne > 1 and r.random() < .5:
        els[:2] = r.choice([["S", "Si"], ["Si", "S"], ["C", "Co"], ["Cl", "C"], ["N", "Ni"], ["Sc", "S"]])
        els = list(dict.fromkeys(els))
    cols = []
    for e in els:
        for o in r.sample(SPD, r.randint(1, 3)):
            cols.append(f"{e}-{o}")
    if dup:
        cols.append(r.choice(cols))
    if r.random() < .3:
        r.shuffle(cols)
    return cols


def _dos(p):
    r = R("dos", p["s"])
    cols = _cols(R("doscols", p["s"].split("~")[0], p["ne"]), p["ne"], p["dup"])
    head = ["Energy", "Total" if p["cap"] else "total"] + cols
    rows = []
    for i in range(p["n"]):
        rows.append([f"{-6 + i * .5 + r.random() / 10:.4f}"] + [r.choice([f"{r.uniform(0, 30):.5f}"] * 8 + [f"{r.uniform(0, 3) * 1e-4:.5E}", "0.00000", f"{r.uniform(-9, 0):.5f}"]) for _ in head[1:]])
    L = [("#   " if p["hash"] else "    ") + "      ".join(head)] + ["   " + "   ".join(x) for x in rows]
    # pandas names repeated columns x, x.1, ...
    names, seen = [], {}
    for h in head:
        k = seen.get(h, 0)
        seen[h] = k + 1
        names.append(h if k == 0 else f"{h}.{k}")
    return "\n".join(L) + "\n", {"head": names, "rows": [[float(x) for x in q] for q in rows]}


def _fat(p):
    r = R("fat", p["s"])
    cols = _cols(R("fatcols", p["s"].split("~")[0], p["ne"]), p["ne"], False)
    head = ["KPOINT", "ENERGY", "weight_tot"] + cols
    L, bands = ["   ".join(head)], []
    for b in range(p["nb"]):
        L.append(f"BAND   {b + 1}")
        rows = []
        for k in range(p["nk"]):
            x = [f"{k * .0334:.6f}", f"{r.uniform(-60, 20):.4f}", "1.000000"] + [r.choice([f"{r.random():.6f}"] * 8 + [f"{r.random() * 1e-5:.5E}", "0.000000", f"{-r.random() * .01:.6f}"]) for _ in cols]
            rows.append([float(v) for v in x])
            L.append("   " + "   ".join(x))
        L.append("")
        bands.append(rows)
    return "\n".join(L) + "\n", {"head": head, "bands": bands}


_DOC = {"inkpt": _inkpt, "report": _report, "fermi": _fermi, "dos": _dos, "fat": _fat}


def text(spec):
    if "t" in spec:
        t = pw.movement(spec["t"])[0]
    elif spec["k"] in ("ac", "dstruct", "kmesh"):
        t = pw.AtomConfig(spec).text()
    else:
        t = _DOC[spec["k"]](spec)[0]
    if spec.get("pad"):
        t = t.replace("\n", " " * spec["pad"] + "\n", 1)
    return t


# ------------------------------------------------------------------ reading
def construct(spec, path):
    k = spec["k"]
    if k in ("mv", "mv1"):
        return MVExtractor(path)
    if k == "infoset":
        return InfoSet.from_file(path, "pwmat/movement")
    if k == "mvt":
        return Movement(path)
    if k == "dstruct":
        return DStructure.from_file(path, "pwmat")
    if k == "kmesh":
        return KMesh("pwmat", path)
    return {"ac": ACExtractor, "inkpt": Inkpt, "report": Report, "fermi": OutFermi, "dos": Dostotalspin, "fat": FatbandStructure}[k](path)


def query(spec, a):
    k = spec["k"]
    if k in ("mv", "mv1"):
        n = a.get_num_frames()
        marks = (bool(a.virial_mark), bool(a.eatoms_mark), bool(a.magmoms_mark))
        if k == "mv":
            return (n, marks, a.get_frames_info())
        return (n, marks, [a.get_frame_info(i) for i in range(n)])
    if k == "infoset":
        return a
    if k == "mvt":
        info = a.get_all_frame_structures_info()
        n = len(info[0])
        i = R("mvt", spec["t"]["s"]).randrange(max(1, n))
        return (info, a.get_all_frame_structures(), i, a.get_frame_structure(i), a.get_frame_energy(i), a.get_frame_virial(i),
                a.get_frame_volume(i))
    if k == "ac":
        return (a.num_atoms, a.basis_vectors, a.types, a.coords, a.get_magmoms(), a.get_basis_vectors(), a.get_coords(), a.get_types())
    if k == "dstruct":
        return (a.lattice.matrix.copy(), [str(x.specie) for x in a], a.frac_coords.copy())
    if k == "kmesh":
        return tuple(np.array(a.get_kmesh(d)) for d in DENSITIES)
    if k == "inkpt":
        return (a.iflag, a.a0, a.get_num_kpts(), a.get_kpt_coords_frac(), a.get_kpt_weights(), a.get_hsp()) + (() if SIDE is None else (
            a.get_kpt_coords_A(SIDE["ac"]), a.get_kpt_coords_Bohr(SIDE["ac"]), a.get_distance_from_gamma_A(SIDE["ac"]),
            a.get_distance_from_gamma_bohr(SIDE["ac"])))
    if k == "report":
        return (a.get_num_bands(), a.get_num_kpts(), a.get_in_atom(), a.get_eigen_energies()) + (() if SIDE is None else gap(spec, a))
    if k == "fermi":
        return a.get_efermi()
    if k == "dos":
        return query_dos(a)
    o = orbital(spec)
    return (a.num_bands, a.num_kpoints, a.get_total_dfs_lst(), a.get_element_dfs_lst(), a.get_orbital_dfs_lst(o) if o else None)


def orbital(spec):
    """A projected column whose name matches no other column, or None."""
    cols = _fat(spec)[1]["head"][3:]
    ok = [c for c in cols if sum(c.lower() in x.lower() for x in cols) == 1]
    r = R("orb", spec["s"])
    return r.choice([r.choice(ok), r.choice(ok).lower()]) if ok else None


def gap(spec, a):
    f = SIDE["fermi"]
    if _report(spec)[1]["metal"]:
        return (a.get_cbm(f), a.get_vbm(f))
    return (a.get_cbm(f), a.get_vbm(f), float(a.get_bandgap(f)), int(a.get_bandgap_type(f)))


def gap_differs(e, v):
    if e["metal"]:
        return None if tuple(v) == (None, None) else "a metal has band edges"
    edge = {}
    for name, d, lo in (("cbm", v[0], True), ("vbm", v[1], False)):
        xs = [(x, s, k + 1, b + 1) for s in ("up", "down") for k, q in enumerate(e[s]) for b, x in enumerate(q) if (x > SIDE["ef"]) == lo]
        want = (min if lo else max)(x[0] for x in xs)
        edge[name] = [x for x in xs if x[0] == want]
        got = (d["energies"][0], d["spins"][0], d["kpts"][0], d["bands"][0])
        if abs(got[0] - want) > 1e-9 or not any(got[1:] == x[1:] for x in edge[name]):
            return f"{name} {got} instead of {edge[name]}"
    if abs(v[2] - (edge["cbm"][0][0] - edge["vbm"][0][0])) > 1e-9:
        return f"band gap {v[2]}"
    if len(edge["cbm"]) == len(edge["vbm"]) == 1 and (v[3] == 1) != (edge["cbm"][0][2] == edge["vbm"][0][2]):
        return f"type of the band gap {v[3]}"


def kpath_differs(e, v):
    c = np.asarray(e["coords"]) @ (2 * np.pi * np.linalg.inv(np.reshape(SIDE["box"], (3, 3))).T)
    step = np.linalg.norm(np.diff(c, axis=0), axis=1)
    for a, b in zip(e["ih"], e["ih"][1:]):
        if b == a + 1:                          # a jump between two paths
            step[a] = 0
    dist = np.concatenate([[0], np.cumsum(step)])
    for name, x, w in (("coordinates in 1/A", v[0], c), ("coordinates in 1/Bohr", v[1], c * BOHR), ("distances in 1/A", v[2], dist),
                       ("distances in 1/Bohr", v[3], dist * BOHR)):
        x = np.asarray(x, dtype=float)
        if x.shape != w.shape or not np.allclose(x, w, rtol=1e-9, atol=1e-9):
            return name + " differ"


def read(spec, path):
    a = construct(spec, path)
    if spec["k"] != "infoset":
        _k(a)
    return query(spec, a)


def query_dos(a):
    return (a.get_tdos(), a.get_pdos_elements(), a.get_pdos_orbitals())


# ------------------------------------------------------------------ comparing
def _df(df, head, rows, what):
    if list(df.columns) != list(head):
        return f"{what}: columns {list(df.columns)} instead of {list(head)}"
    a = np.asarray(df.to_numpy(), dtype=float)
    b = np.asarray(rows, dtype=float).reshape(len(rows), len(head))
    if a.shape != b.shape:
        return f"{what}: shape {a.shape} instead of {b.shape}"
    if not np.allclose(a, b, rtol=1e-9, atol=1e-12):
        return f"{what}: values differ"


def _sum(head, rows, skip):
    els = list(dict.fromkeys(h.split("-")[0] for h in head[skip:]))
    out = []
    for q in rows:
        out.append(list(q[:skip]) + [sum(x for h, x in zip(head[skip:], q[skip:]) if h.split("-")[0] == e) for e in els])
    return head[:skip] + els, out


def differs_dos(spec, v):
    e = _dos(spec)[1]
    head, rows = e["head"], e["rows"]
    d = _df(v[0], head[:2], [q[:2] for q in rows], "tdos")
    eh, er = _sum(head, rows, 2)
    d = d or _df(v[1], eh[:1] + eh[2:], [q[:1] + q[2:] for q in er], "pdos_elements")
    return d or _df(v[2], head[:1] + head[2:], [q[:1] + q[2:] for q in rows], "pdos_orbitals")


def differs(spec, v):
    """None if v is exactly what the file says, else a description."""
    try:
        return _differs(spec, v)
    except (AttributeError, TypeError, IndexError, KeyError, ValueError) as e:
        return f"malformed result ({type(e).__name__}: {e})"


def struct_differs(f, s):
    """A structure object against the frame f of a trajectory file."""
    n = len(f.z)
    if [x.specie.symbol for x in s] != [pw.ELEMENTS[z] for z in f.z]:
        return "elements"
    if not np.allclose(np.ravel(s.lattice.matrix), f.box, rtol=1e-12, atol=1e-12):
        return "lattice"
    d = np.ravel(s.frac_coords) - f.coords
    if d.shape != (3 * n,) or not np.all(np.abs(d - np.round(d)) < 1e-9):
        return "coordinates"
    if not pw.close(np.ravel(s.site_properties["atomic_force"]), f.forces):
        return "forces"
    ea = f.eatoms if f.eatoms is not None else np.zeros(n)
    return None if pw.close(np.ravel(s.site_properties["atomic_energy"]), ea) else "atomic energies"


def info_differs(fr, info):
    """The result of Movement.get_all_frame_structures_info against the frames."""
    if [len(x) for x in info[:4]] != [len(fr)] * 4:
        return f"{[len(x) for x in info]} entries instead of {len(fr)} frames"
    nv = sum(f.virial is not None for f in fr)
    if len(info[4]) != len(fr) and (nv or len(info[4])):        # without stress: empty, or one (zero) tensor per frame
        return f"{len(info[4])} virial tensors for {len(fr)} frames"
    for i, f in enumerate(fr):
        d = struct_differs(f, info[0][i])
        if d:
            return f"frame {i}: {d}"
        if not pw.close([float(info[c][i]) for c in (1, 2, 3)], [float(x) for x in f.e_s]):
            return f"frame {i}: energies"
        if len(info[4]) and not pw.close(np.ravel(info[4][i]), f.virial if f.virial is not None else np.zeros(9)):
            return f"frame {i}: virial"


def frame_values_differ(f, energy=None, virial=None, volume=None):
    if energy is not None and not pw.close([float(x) for x in energy], [float(x) for x in f.e_s]):
        return f"energies {energy} instead of {f.e_s}"
    if virial is not None and not pw.close(np.ravel(virial), f.virial if f.virial is not None else np.zeros(9)):
        return "virial"
    if volume is not None and abs(volume - abs(np.linalg.det(f.box.reshape(3, 3)))) > 1e-9 * volume:
        return "volume"


def _differs(spec, v):
    k = spec["k"]
    if k == "mvt":
        fr = pw.frames(spec["t"])
        d = info_differs(fr, v[0])
        if d:
            return d
        if len(v[1]) != len(fr):
            return f"{len(v[1])} structures instead of {len(fr)}"
        for i, f in enumerate(fr):
            d = struct_differs(f, v[1][i])
            if d:
                return f"structure {i}: {d}"
        f = fr[v[2]]
        d = struct_differs(f, v[3]) or frame_values_differ(f, v[4], v[5], v[6])
        return f"single access to frame {v[2]}: {d}" if d else None
    if k in ("mv", "mv1"):
        fr = pw.frames(spec["t"])
        n, marks, info = v
        if n != len(fr):
            return f"{n} frames instead of {len(fr)}"
        if marks != (fr[0].virial is not None, fr[0].eatoms is not None, fr[0].mags is not None):
            return f"marks {marks}"
        rows = [[a[i] for a in info] for i in range(n)] if k == "mv" else info
        for i, (f, x) in enumerate(zip(fr, rows)):
            want = [f.box, f.z, f.coords, [f.etot], f.forces] + ([f.virial] if marks[0] else []) + ([f.eatoms] if marks[1] else []) + ([f.mags] if marks[2] else [])
            if len(x) != len(want):
                return f"frame {i}: {len(x)} fields instead of {len(want)}"
            for c, (a, b) in enumerate(zip(x, want)):
                if not pw.close(np.ravel(a), b):
                    return f"frame {i} field {c} differs"
        return None
    if k == "infoset":
        fr = pw.frames(spec["t"])
        inv = {s: z for z, s in pw.ELEMENTS.items()}
        names = [inv[x] for x in v.formula_dict]
        for i, f in enumerate(fr):
            if [names[int(t)] for t in v.types[i]] != f.z or not pw.close(v.box[i], f.box) or not pw.close(v.coord[i], f.coords) \
                    or not pw.close(v.fatom[i], f.forces) or not pw.close(np.ravel(v.etot[i]), [f.etot]):
                return f"frame {i} differs"
            if v.virial_mark != (f.virial is not None) or v.eatom_mark != (f.eatoms is not None) or v.magmom_mark != (f.mags is not None):
                return "marks"
            if f.virial is not None and not pw.close(v.virial[i], f.virial) or f.eatoms is not None and not pw.close(v.eatom[i], f.eatoms) \
                    or f.mags is not None and not pw.close(v.magmom[i], f.mags):
                return f"frame {i} optional field differs"
        return None if len(v.box) == len(fr) == v.num_frames else "number of frames"
    if k == "ac":
        a = pw.AtomConfig(spec)
        if v[0] != len(a.z):
            return f"{v[0]} atoms instead of {len(a.z)}"
        for i, w in ((1, a.box), (2, a.z), (3, a.coords), (4, a.mags), (5, a.box), (6, a.coords), (7, a.z)):
            if not pw.close(np.ravel(v[i]), np.ravel(w)):
                return ("", "lattice", "types", "coordinates", "magnetic moments", "lattice", "coordinates", "types")[i] + " differ"
        return None
    if k == "dstruct":
        a = pw.AtomConfig(spec)
        if v[1] != [pw.ELEMENTS[z] for z in a.z]:
            return "elements differ"
        if not np.allclose(np.ravel(v[0]), a.box, rtol=1e-12, atol=1e-12):
            return "lattice differs"
        d = np.ravel(v[2]) - a.coords
        return None if np.all(np.abs(d - np.round(d)) < 1e-9) else "coordinates differ"
    if k == "kmesh":
        a = pw.AtomConfig(spec)
        box = np.reshape(a.box, (3, 3))
        b = np.linalg.norm(np.linalg.inv(box), axis=0)               # reciprocal lengths, 2 pi / Angstrom
        x = np.reshape(a.coords, (-1, 3)) @ box
        gap = np.linalg.norm(box, axis=1) - (x.max(axis=0) - x.min(axis=0))
        for d, m in zip(DENSITIES, v):
            w = b / d
            if m.shape != (3,):
                return f"mesh {m!r}"
            for i in range(3):
                if abs(gap[i] - 10) < 1e-6 or abs(w[i] % 1 - .5) < 1e-6:
                    continue                                        # too close to call
                if m[i] != (1 if gap[i] > 10 else max(1, round(w[i]))):
                    return f"mesh {m.tolist()} for density {d}"
        return None
    if k == "inkpt":
        e = _inkpt(spec)[1]
        if (v[0], v[1], v[2]) != (e["iflag"], e["a0"], e["n"]):
            return f"header {v[:3]} instead of {(e['iflag'], e['a0'], e['n'])}"
        if not pw.close(v[3], e["coords"]) or not pw.close(v[4], e["w"]):
            return "coordinates or weights differ"
        if list(v[5]["hsp"]) != e["hsp"] or [list(c) for c in v[5]["coords_frac"]] != e["hc"]:
            return "high-symmetry points differ"
        return kpath_differs(e, v[6:]) if len(v) > 6 else None
    if k == "report":
        e = _report(spec)[1]
        if (v[0], v[1], v[2]) != (e["nb"], e["nk"], e["name"]):
            return f"header {v[:3]} instead of {(e['nb'], e['nk'], e['name'])}"
        for sp in ("up", "down"):
            a = np.asarray(v[3][sp], dtype=float)
            b = np.asarray(e[sp], dtype=float)
            if a.size != b.size or (b.size and not pw.close(a, b)):
                return f"eigenvalues ({sp}) differ"
        return gap_differs(e, v[4:]) if len(v) > 4 else None
    if k == "fermi":
        e = _fermi(spec)[1]["e"]
        return None if abs(float(v) - e) < 5e-4 + 1e-9 else f"{v} instead of {e}"         # the reader rounds to 3 decimals
    if k == "dos":
        return differs_dos(spec, v)
    e = _fat(spec)[1]
    if (v[0], v[1]) != (spec["nb"], spec["nk"]):
        return f"{v[:2]} bands, k-points instead of {(spec['nb'], spec['nk'])}"
    if len(v[2]) != spec["nb"] or len(v[3]) != spec["nb"]:
        return "number of bands"
    for b in range(spec["nb"]):
        rows = [[q[0] / 0.529177249] + q[1:] for q in e["bands"][b]]
        eh, er = _sum(e["head"], rows, 3)
        d = _df(v[2][b], e["head"], rows, f"band {b}") or _df(v[3][b], eh, er, f"band {b} by element")
        if d:
            return d
    o = orbital(spec)
    if o is None:
        return None
    i = next(i for i, h in enumerate(e["head"]) if h.lower() == o.lower())
    if len(v[4]) != spec["nb"]:
        return "number of bands of one orbital"
    for b in range(spec["nb"]):
        d = _df(v[4][b], e["head"][:3] + [e["head"][i]], [[q[0] / BOHR, q[1], q[2], q[i]] for q in e["bands"][b]], f"band {b} of {o}")
        if d:
            return d
    return None
