"""Trees of trajectories and the reference model of ingestion and export."""
import collections
import os
import re

import numpy as np

from . import pwfiles as pw
from .core import REAL, Violation

NAMES = ["MOVEMENT", "MOVEMENT", "movement", "Movement"]
ODD = ["a b", ".hidden", "MOVEMENT", "x.d", "-dash", "part.000", "long" * 20, "\u9492", "H2", "0"]        # legal folder names


def gen_tree(r, tag, nfiles=None, nmax=6):
    """{"files": [{"d": folder, "name": .., "t": traj}], "decoys": [...]}"""
    n = nfiles or r.choice([1, 2, 2, 3, 3, 4, 5])
    if nfiles is None and r.random() < .06:
        n = r.choice([8, 11, 14])
    pool = pw.pick_z(r, r.choice([2, 3, 3, 4, 6]))
    comps = []
    files = []
    for i in range(n):
        if comps and r.random() < .55:
            z = list(r.choice(comps))
        elif comps and r.random() < .3:            # a composition easily confused with another one
            z = list(r.choice(comps))
            k = r.random()
            els = sorted(set(z))
            if k < .3 and len(els) > 1:            # A2B1 and A1B2
                z = [{els[0]: els[1], els[1]: els[0]}.get(e, e) for e in z]
            elif k < .6:                           # one atom more
                z = z + [r.choice(z)]
            elif k < .8:                           # twice the formula unit
                z = z + z if len(z) < 8 else z[:-1] or z
            else:                                  # one element exchanged
                z = [r.choice(pool) if e == els[0] else e for e in z]
            comps.append(z)
        else:
            z = pw.gen_z(r, r.sample(pool, r.choice([1, 2, min(2, len(pool)), min(3, len(pool))])), nmax)
            comps.append(z)
        t = pw.gen_traj(r, f"{tag}.{i}", z)
        if r.random() < .6:
            t["virial"], t["eatom"] = True, r.random() < .7
            t["mag"] = r.random() < .4
        if files and r.random() < .06:
            t = dict(r.choice(files)["t"])                 # a copy of another file
        if r.random() < .12:
            t["rep"] = True
        d = "/".join(r.choice(ODD) if r.random() < .12 else r.choice("abcde") + str(r.randrange(3)) for _ in range(r.choice([0, 1, 1, 2, 3, 6])))
        name = r.choice(NAMES)
        if clash(files, d, name):
            d = f"u{i}"
        files.append({"d": d, "name": name, "t": t})
    if nfiles is None and r.random() < .02:                # A1 and A12: one formula is the beginning of the other
        e = r.choice(pool)
        for i, k in enumerate([1, 1, r.choice([10, 12, 19])]):
            files.append({"d": f"v{i}", "name": r.choice(NAMES), "t": pw.gen_traj(r, f"{tag}.v{i}", [e] * k)})
        r.shuffle(files)
    decoys = [r.choice(["REPORT", "MOVEMENT.bak", "xMOVEMENT", "MOVEMENT1", "atom.config"]) for _ in range(r.randrange(3))]
    if r.random() < .04:                                   # one file under two names
        f = dict(r.choice(files), d="w", as_=r.choice(["link", "symlink"]))
        files.append(f)
    out = {"files": files, "decoys": decoys}
    if r.random() < .04:
        out["link"] = r.choice([".", files[0]["d"] or "."])     # a symbolic link to a folder of the tree itself
    return out


def clash(files, d, name):
    """Would a file be written twice, or a file be needed as a folder?"""
    q = "/".join(x for x in (d, name) if x)
    for f in files:
        p = "/".join(x for x in (f["d"], f["name"]) if x)
        if p == q or p.startswith(q + "/") or q.startswith(p + "/"):
            return True
    return False


def shrink_tree(tree):
    fs = tree["files"]
    for i in range(len(fs)):
        if len(fs) > 1:
            yield {**tree, "files": fs[:i] + fs[i + 1:]}
    if tree["decoys"]:
        yield {**tree, "decoys": []}
    if tree.get("link"):
        yield {k: v for k, v in tree.items() if k != "link"}
    for i in range(len(fs)):
        for t in pw.shrink_traj(fs[i]["t"]):
            yield {**tree, "files": fs[:i] + [{**fs[i], "t": t}] + fs[i + 1:]}


def write_tree(sim, tree, base="in"):
    os.makedirs(sim.path(base), exist_ok=True)
    for f in tree["files"]:
        if f.get("as_"):
            o = next((o for o in tree["files"] if not o.get("as_") and o["t"] == f["t"]), None)
            if o is not None:
                os.makedirs(sim.path(os.path.join(base, f["d"])), exist_ok=True)
                getattr(os, f["as_"])(sim.path(os.path.join(base, o["d"], o["name"])), sim.path(os.path.join(base, f["d"], f["name"])))
                continue
        txt, _ = pw.movement(f["t"])
        sim.write(os.path.join(base, f["d"], f["name"]), txt)
    for i, n in enumerate(tree["decoys"]):
        sim.write(os.path.join(base, tree["files"][0]["d"], n), f"not a trajectory {i}\n")
    if tree.get("link"):
        os.symlink(sim.path(os.path.join(base, tree["link"])), sim.path(os.path.join(base, "latest")))


class Group:
    def __init__(self, comp):
        self.comp = comp                # {symbol: count}
        self.files = []                 # list of (frames, virial?, eatom?)

    @property
    def nframes(self):
        return sum(len(f[0]) for f in self.files)

    @property
    def virial(self):
        return all(f[1] for f in self.files)

    @property
    def eatom(self):
        return all(f[2] for f in self.files)

    @property
    def mag(self):
        return all(f[3] for f in self.files)


def model(tree):
    """Reference model of ingestion: composition -> Group."""
    g = {}
    for f in tree["files"]:
        fr = pw.frames(f["t"])
        comp = dict(collections.Counter(pw.ELEMENTS[z] for z in fr[0].z))
        key = tuple(sorted(comp.items()))
        g.setdefault(key, Group(comp)).files.append((fr, bool(f["t"]["virial"]), bool(f["t"]["eatom"]), bool(f["t"].get("mag"))))
    return g


def parse_formula(s):
    return {a: int(b) for a, b in re.findall(r"([A-Z][a-z]?)(\d+)", s) if int(b) > 0}


def arr(x):
    return np.asarray(x)


def check_arrays(g, where, names, box, types, coord, etot, fatom, virial, eatom, magmom, exact=False):
    """Frames given as arrays must be exactly the frames of group g (each once, aligned)."""
    n = g.nframes
    nat = sum(g.comp.values())

    def shape(a, w, what):
        a = arr(a)
        if a.ndim != 2 or a.shape != (n, w):
            raise Violation("shape", f"{where}: {what} has shape {a.shape}, expected {(n, w)}")
        return a
    box = shape(box, 9, "box"); types = shape(types, nat, "types"); coord = shape(coord, 3 * nat, "coord")
    etot = shape(etot, 1, "etot"); fatom = shape(fatom, 3 * nat, "fatom")
    for what, have, want, w in (("virial", virial, g.virial, 9), ("eatom", eatom, g.eatom, nat), ("magmom", magmom, g.mag, nat)):
        if (have is not None) != want:
            raise Violation("optional", f"{where}: {what} {'present' if have is not None else 'missing'}, files say {want}")
    virial = shape(virial, 9, "virial") if virial is not None else None
    eatom = shape(eatom, nat, "eatom") if eatom is not None else None
    magmom = shape(magmom, nat, "magmom") if magmom is not None else None
    same = (lambda a, b: np.array_equal(a, b)) if exact else pw.close
    pool = collections.defaultdict(list)
    for fi, (fr, *_) in enumerate(g.files):
        for k, f in enumerate(fr):
            pool[np.round(f.coords, 9).tobytes()].append((fi, k, f))
    last = {}
    for i in range(n):
        key = np.round(arr(coord[i]).astype(float), 9).tobytes()
        cands = pool.get(key)
        if not cands:
            raise Violation("alien-frame", f"{where}: frame {i} is not (or no longer) a frame of the files")
        fit = [c for c in cands if same(etot[i], [c[2].etot]) and same(box[i], c[2].box) and same(fatom[i], c[2].forces)]
        fi, k, f = fit[0] if fit else cands[0]
        cands.remove((fi, k, f))
        if not same(coord[i], f.coords):
            raise Violation("value", f"{where}: coordinates of frame {i}")
        try:
            z = [names[int(t)] for t in types[i]]
        except (IndexError, KeyError, ValueError, TypeError):
            raise Violation("type", f"{where}: frame {i} has a type outside the table: {list(types[i])} {names}")
        if z != [pw.ELEMENTS[q] for q in f.z]:
            raise Violation("type", f"{where}: frame {i} decodes to {z}")
        for what, a, b in (("box", box, f.box), ("etot", etot, [f.etot]), ("fatom", fatom, f.forces)):
            if not same(a[i], b):
                raise Violation("misaligned", f"{where}: {what} of frame {i} differs from the file")
        if virial is not None and not same(virial[i], f.virial):
            raise Violation("misaligned", f"{where}: virial of frame {i}")
        if eatom is not None and not same(eatom[i], f.eatoms):
            raise Violation("misaligned", f"{where}: eatom of frame {i}")
        if magmom is not None and not same(magmom[i], f.mags):
            raise Violation("misaligned", f"{where}: magnetic moments of frame {i}")
        if len(cands) == 0 and fi in last and last[fi] > k and not dup(g, fi):
            raise Violation("order", f"{where}: frames of one file out of order")
        last[fi] = k


def dup(g, fi):
    a = {f.key() for f in g.files[fi][0]}
    return any(j != fi and a & {f.key() for f in g.files[j][0]} for j in range(len(g.files)))


def opt(x):
    return None if x is False or x is None else x


def check_infosets(tree, infosets):
    g = model(tree)
    lst = list(infosets.infoset_lst)
    seen = set()
    table = None
    for s in lst:
        names = list(s.formula_dict.keys())
        if table is None:
            table = names
        if names != table:
            raise Violation("table", f"groups use different type tables {table} {names}")
        comp = {k: int(v) for k, v in s.formula_dict.items() if int(v)}
        key = tuple(sorted(comp.items()))
        if parse_formula(s.formula) != comp:
            raise Violation("counts", f"group {s.formula} reports element counts {comp}")
        if key not in g:
            raise Violation("group", f"no file has composition {comp}")
        if key in seen:
            raise Violation("group", f"composition {s.formula} appears twice")
        seen.add(key)
        grp = g[key]
        if int(s.num_frames) != grp.nframes:
            raise Violation("lost-frames", f"{s.formula}: reports {s.num_frames} frames, files have {grp.nframes}")
        check_arrays(grp, s.formula, names, s.box, s.types, s.coord, s.etot, s.fatom,
                     opt(s.virial), opt(s.eatom), opt(s.magmom))
    if set(g) != seen:
        raise Violation("group", f"compositions {sorted(set(g) - seen)} are missing")
    els = {e for k in g for e, _ in k}
    if lst and (set(table) != els or len(table) != len(els)):
        raise Violation("table", f"type table {table}, elements {sorted(els)}")
    tot = sum(x.nframes for x in g.values())
    if int(infosets.get_num_frames()) != tot:
        raise Violation("lost-frames", f"total {infosets.get_num_frames()} != {tot}")


NPY = {"box": "box.npy", "types": "types.npy", "coord": "coord.npy", "etot": "etot.npy", "fatom": "fatom.npy",
       "virial": "virial.npy", "eatom": "eatom.npy", "magmom": "magmoms.npy"}


def read_dataset(base):
    """Decode an exported composition folder: (names, [ {array name: array} per part ])."""
    with REAL["open"](os.path.join(base, "type_map.raw")) as f:
        names = f.read().split()
    parts = sorted((p for p in os.listdir(base) if p.startswith("part.")), key=lambda p: int(p[5:]))
    if [int(p[5:]) for p in parts] != list(range(len(parts))):
        raise Violation("parts", f"parts are not numbered consecutively: {parts}")
    for p in parts:
        if p != "part.{0:0>3}".format(int(p[5:])):
            raise Violation("parts", f"unexpected part name {p}")
    out = []
    for p in parts:
        d = {}
        for k, fn in NPY.items():
            q = os.path.join(base, p, fn)
            if os.path.exists(q):
                d[k] = np.load(q, allow_pickle=False)
        out.append(d)
    return names, out


def check_export(tree, infosets, base, part_size, only=None):
    """The files below base must be exactly the dataset."""
    g = model(tree)
    have = {}
    for d in sorted(os.listdir(base)):
        if only is not None and d not in only:
            continue
        if not os.path.isdir(os.path.join(base, d)):
            raise Violation("stray", f"unexpected file {d}")
        comp = parse_formula(d)
        key = tuple(sorted(comp.items()))
        if key not in g or key in have:
            raise Violation("stray", f"unexpected folder {d}")
        have[key] = d
    if set(have) != set(g):
        raise Violation("incomplete", f"folders {sorted(have.values())} for {len(g)} compositions")
    tables = set()
    for key, d in have.items():
        grp = g[key]
        try:
            names, parts = read_dataset(os.path.join(base, d))
        except (OSError, ValueError, EOFError) as e:
            raise Violation("undecodable", f"{d}: {type(e).__name__} {e}")
        tables.add(tuple(names))
        need = ["box", "types", "coord", "etot", "fatom"] + (["virial"] if grp.virial else []) + (["eatom"] if grp.eatom else []) + (["magmom"] if grp.mag else [])
        for i, p in enumerate(parts):
            missing = [k for k in need if k not in p]
            extra = [k for k in p if k not in need]
            if missing or extra:
                raise Violation("incomplete", f"{d}/part {i}: missing {missing}, unexpected {extra}")
            lens = {len(p[k]) for k in p}
            if len(lens) != 1 or 0 in lens:
                raise Violation("parts", f"{d}/part {i}: lengths {lens}")
            ln = lens.pop()
            if part_size and (ln > part_size or (i < len(parts) - 1 and ln != part_size)):
                raise Violation("parts", f"{d}/part {i} of {len(parts)} has {ln} frames, part size {part_size}")
        if not part_size and len(parts) != 1:
            raise Violation("parts", f"{d}: {len(parts)} parts without a part size")
        cat = {k: np.concatenate([p[k] for p in parts], axis=0) for k in need} if parts else {}
        if not cat:
            raise Violation("incomplete", f"{d}: no parts")
        check_arrays(grp, "export " + d, names, cat["box"], cat["types"], cat["coord"], cat["etot"], cat["fatom"],
                     cat.get("virial"), cat.get("eatom"), cat.get("magmom"))
        if infosets is not None:
            for s in infosets.infoset_lst:
                if tuple(sorted((k, int(v)) for k, v in s.formula_dict.items() if int(v))) == key or \
                        tuple(sorted(parse_formula(s.formula).items())) == key:
                    for k in need:
                        if not np.array_equal(cat[k], arr(getattr(s, k))):
                            raise Violation("value", f"export {d}: {k} is not bit-identical to the dataset")
    if len(tables) > 1:
        raise Violation("table", f"type maps differ: {tables}")
