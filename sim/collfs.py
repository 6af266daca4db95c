"""What the collection exports must leave on disk, judged from the files alone."""
import io
import numpy as np

from . import pwfiles as pw


def npy(b):
    f = io.BytesIO(b)
    a = np.load(f, allow_pickle=False)
    if f.read():
        raise ValueError("trailing bytes after the array")
    return a


def _close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(1, np.abs(b))))


def collection_differs(ref, snap, set_size):
    """snap: {relative path: bytes} of the target folder."""
    try:
        if "type_map.raw" not in snap or "type.raw" not in snap:
            return "type_map.raw or type.raw missing"
        tm = snap["type_map.raw"].decode().split("\n")
        ty = snap["type.raw"].decode().split("\n")
        if tm[-1] != "" or ty[-1] != "":
            return "type_map.raw or type.raw not newline-terminated"
        tm, ty = [x.strip() for x in tm[:-1]], [int(x) for x in ty[:-1]]
        order = list(dict.fromkeys(ref.z))
        if sorted(tm) != sorted(pw.ELEMENTS[z] for z in order):
            return f"type map {tm} for elements {[pw.ELEMENTS[z] for z in order]}"
        if [tm[t] if 0 <= t < len(tm) else "?" for t in ty] != [pw.ELEMENTS[z] for z in ref.z]:
            return f"types {ty} with map {tm} for atoms {ref.z}"
        nsets = -(-ref.nf // set_size)
        want = {"type_map.raw", "type.raw"}
        names = ["cell.npy", "atom_coord.npy", "tot_energy.npy", "atom_force.npy"]
        if np.any(np.array(ref.virial) != 0):
            names.append("virial.npy")
        if np.any(np.array(ref.eatom) != 0):
            names.append("atom_energy.npy")
        for k in range(nsets):
            want.add("set.%03d" % k)
            want |= {"set.%03d/%s" % (k, x) for x in names}
        if set(snap) != want:
            return f"missing {sorted(want - set(snap))[:4]}, unexpected {sorted(set(snap) - want)[:4]}"
        data = {"cell.npy": [b.reshape(-1) for b in ref.box], "atom_coord.npy": [ref.cart(i).reshape(-1) for i in range(ref.nf)],
                "tot_energy.npy": [[e[0]] for e in ref.e], "atom_force.npy": [f.reshape(-1) for f in ref.force],
                "virial.npy": [v.reshape(-1) for v in ref.virial], "atom_energy.npy": ref.eatom}
        for k in range(nsets):
            for x in names:
                w = np.array(data[x][k * set_size:(k + 1) * set_size], dtype=float)
                a = npy(snap["set.%03d/%s" % (k, x)])
                if not _close(a, w, 1e-9 if x == "atom_coord.npy" else 0):
                    return f"set.{k:03d}/{x} is not frames {k * set_size}..{k * set_size + len(w) - 1}"
        return None
    except (ValueError, UnicodeDecodeError, EOFError, IndexError) as e:
        return f"unreadable: {e}"


def nbr_tables(ref, i, scal, rcut=6.5):
    """Rows per centre atom (ordered by atomic number, then file order): {rounded image coords: (Z, distance)}; None if too close to call."""
    im = ref.images(i, scal)
    cart = ref.cart(i)
    rows = []
    for c in sorted(range(ref.n), key=lambda a: ref.z[a]):
        row = []
        for a in range(ref.n):
            xyz = cart[a] + im
            d = np.linalg.norm(xyz - cart[c], axis=1)
            if np.any(np.abs(d - rcut) < 1e-7):
                return None
            row += [(float(dd), ref.z[a], x) for dd, x in zip(d, xyz) if dd < rcut]
        row.sort(key=lambda t: t[0])
        rows.append(row)
    return rows


def nbr_differs(ref, i, scal, an, ds, co):
    rows = nbr_tables(ref, i, scal)
    if rows is None:
        return None
    m = max(len(r) for r in rows)
    if an.shape != (ref.n, m) or ds.shape != (ref.n, m) or co.shape != (ref.n, m, 3):
        return f"neighbour tables have shapes {an.shape} {ds.shape} {co.shape} instead of {(ref.n, m)}"
    for k, r in enumerate(rows):
        if np.any(an[k, len(r):] != 0) or np.any(ds[k, len(r):] != 0) or np.any(co[k, len(r):] != 0):
            return f"neighbour row {k} is not zero-padded"
        if not _close(ds[k, :len(r)], [t[0] for t in r], 1e-7):
            return f"neighbour distances of row {k} differ"
        key = lambda z, x: (int(z),) + tuple(np.round(x, 5) + 0.0)
        A = sorted(key(z, x) for z, x in zip(an[k, :len(r)], co[k, :len(r)]))
        B = sorted(key(z, x) for _, z, x in r)
        for p, q in zip(A, B):
            if p[0] != q[0] or max(abs(a - b) for a, b in zip(p[1:], q[1:])) > 3e-5:
                # rounding may swap near-equal keys: match without order
                for z, x in [(t[1], t[2]) for t in r]:
                    if not any(int(zz) == z and np.max(np.abs(xx - x)) < 1e-6 for zz, xx in zip(an[k, :len(r)], co[k, :len(r)])):
                        return f"neighbour row {k} lacks atom {z} at {x}"
                break
    return None


FILES = ["atom.config", "box.npy", "coord.npy", "energy.npy", "atomic_energy.npy", "atomic_force.npy", "virial.npy", "atomic_number.npy",
         "nbrs_atomic_numbers.npy", "nbrs_distances.npy", "nbrs_coords.npy"]


def atom_config_differs(text, box, z, frac, mag=None):
    """A structure file written by the library, against the structure."""
    L = text.split("\n")
    n = len(z)
    want = 6 + n + (1 + n if mag is not None else 0)
    if L[-1] != "":
        return "last line is not terminated"
    L = L[:-1]
    if len(L) != want:
        return f"{len(L)} lines instead of {want}"
    try:
        if int(L[0].split()[0]) != n or "atoms" not in L[0]:
            return f"atom count line {L[0]!r}"
        if "lattice" not in L[1].lower() or "position" not in L[5].lower():
            return "section titles"
        b = np.array([[float(x) for x in l.split()] for l in L[2:5]])
        if b.shape != (3, 3) or np.any(np.abs(b - box) > 6e-7 * np.maximum(1e-3, 10 ** np.ceil(np.log10(np.maximum(np.abs(box), 1e-30))))):
            return f"lattice {b.tolist()}"
        for i, l in enumerate(L[6:6 + n]):
            w = l.split()
            if len(w) < 7 or int(w[0]) != z[i] or any(abs(float(w[1 + k]) - frac[i][k]) > 6e-7 for k in range(3)):
                return f"atom line {i}: {l!r}"
            if w[4:7] != ["1", "1", "1"]:
                return f"atom line {i}: {l!r}"
        if mag is not None:
            if L[6 + n].strip().lower() != "magnetic":
                return "magnetic title"
            for i, l in enumerate(L[7 + n:]):
                w = l.split()
                if int(w[0]) != z[i] or abs(float(w[1]) - mag[i]) > 5.1e-3:
                    return f"magnetic line {i}: {l!r}"
    except (ValueError, IndexError) as e:
        return f"malformed ({e})"
    return None


def image_differs(ref, i, snap, scal):
    """snap: {relative path: bytes} of the folder of frame i."""
    if set(snap) != set(FILES):
        return f"missing {sorted(set(FILES) - set(snap))[:4]}, unexpected {sorted(set(snap) - set(FILES))[:4]}"
    try:
        e = atom_config_differs(snap["atom.config"].decode(), ref.box[i], ref.z, ref.frac[i])
        if e:
            return "atom.config: " + e
        for name, w, tol in (("box.npy", ref.box[i], 0), ("coord.npy", ref.cart(i), 1e-9), ("energy.npy", ref.e[i], 0),
                             ("atomic_energy.npy", ref.eatom[i], 0), ("atomic_force.npy", ref.force[i], 0), ("virial.npy", ref.virial[i], 0),
                             ("atomic_number.npy", list(dict.fromkeys(ref.z)), 0)):
            if not _close(npy(snap[name]), w, tol):
                return f"{name} is not that of frame {i}"
        return nbr_differs(ref, i, scal, npy(snap["nbrs_atomic_numbers.npy"]), npy(snap["nbrs_distances.npy"]), npy(snap["nbrs_coords.npy"]))
    except (ValueError, UnicodeDecodeError, EOFError) as e:
        return f"unreadable: {e}"


def folder(i, nf):
    return f"%0{len(str(nf))}d" % i


def sub(snap, d):
    return {k[len(d) + 1:]: v for k, v in snap.items() if k.startswith(d + "/")}


def images_differ(ref, snap, scal):
    for i in range(ref.nf):
        d = folder(i, ref.nf)
        if d not in snap:
            return f"folder {d} missing"
        e = image_differs(ref, i, sub(snap, d), scal)
        if e:
            return f"frame {i}: {e}"
    return None
