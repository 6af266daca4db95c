"""Smooth-edition descriptors from the definition: every neighbour of every centre with its
relative coordinates, features, derivatives (by the centre's position) and atom index."""
import numpy as np


def switch(d, rs, rc):
    """vv = r s(r) and its derivative."""
    u = (d - rs) / (rc - rs)
    vv = np.where(d > rs, u ** 3 * (-6 * u ** 2 + 15 * u - 10) + 1, 1)
    dv = np.where(d > rs, (3 * u ** 2 * (-6 * u ** 2 + 15 * u - 10) + u ** 3 * (-12 * u + 15)) / (rc - rs), 0)
    return vv, dv


def block(ref, i, c, z, p):
    """Neighbours of element z of atom c in frame i: (v, features, derivatives, index); None if
    a distance is too close to the cutoff or to another atom to call."""
    im, x = ref.images(i, p["scal"]), ref.cart(i)
    vs, ids = [np.zeros((0, 3))], []
    for a in range(ref.n):
        if ref.z[a] != z:
            continue
        v = x[a] + im - x[c]
        d = np.linalg.norm(v, axis=1)
        if a == c:
            v, d = v[d > 1e-9], d[d > 1e-9]
        if np.any(np.abs(d - p["rcut"]) < 1e-7) or np.any(d < 1e-3):
            return None
        v = v[d < p["rcut"]]
        vs.append(v)
        ids += [a + 1] * len(v)
    v = np.concatenate(vs)
    d = np.linalg.norm(v, axis=1)
    vv, dv = switch(d, p["rs"], p["rcut"])
    f = np.column_stack([vv / d, (vv / d ** 2)[:, None] * v])
    g = np.zeros((len(v), 4, 3))
    e = -v / d[:, None]                              # gradient of the distance by the centre's position
    g[:, 0] = (dv / d - vv / d ** 2)[:, None] * e
    g[:, 1:] = (dv / d ** 2 - 2 * vv / d ** 3)[:, None, None] * v[:, :, None] * e[:, None, :] - (vv / d ** 2)[:, None, None] * np.eye(3)
    return v, f, g, np.array(ids)


def rows(ref, i, p):
    """One row per centre (grouped by element in the order asked, then in structure order) of
    one block per neighbour element, or None if too close to call."""
    out = []
    for k, zc in enumerate(p["centers"]):
        for c in range(ref.n):
            if ref.z[c] == zc:
                r = [block(ref, i, c, z, p) for z in p["nbrs"]]
                if any(b is None for b in r):
                    return None
                out.append((k, r))
    return out


def padded(a, m):
    return np.concatenate([a, np.zeros((m - len(a),) + a.shape[1:])])


def expected(ref, i, p, avg, std):
    """Rows of blocks of columns (v 3, normalised features 4, scaled derivatives 12, index 1),
    padded; the columns of one block in any order."""
    rr = rows(ref, i, p)
    if rr is None:
        return None
    out = []
    for k, r in rr:
        row = []
        for (v, f, g, n), m in zip(r, p["max"]):
            row.append(np.concatenate([padded(v, m), (padded(f, m) - avg[k]) / std[k], (padded(g, m) / np.reshape(std[k], (1, 4, 1))).reshape(m, 12),
                                       padded(n, m)[:, None]], axis=1))
        out.append(row)
    return out


def differ(got, want, p, what, rtol=1e-6, atol=1e-8):
    """got: (rows, neighbours, columns); want: rows of blocks of (neighbours, columns).  The
    neighbours of one block come in any order, but all columns in the same one."""
    n = sum(p["max"])
    if got.shape[:2] != (len(want), n):
        return f"{what} have shape {got.shape} instead of {(len(want), n)} centres and neighbours"
    for k, row in enumerate(want):
        at = 0
        for z, w in zip(p["nbrs"], row):
            g = got[k, at:at + len(w)]
            at += len(w)
            left = list(range(len(w)))
            tol = max(atol, 1e-10 * np.max(np.abs(w), initial=0))
            for x in g:
                ok = [j for j in left if np.allclose(x, w[j], rtol=rtol, atol=tol)]
                if not ok:
                    return f"{what} of row {k}, neighbours {z} differ from the definition"
                left.remove(ok[0])


def nmax(ref, p):
    """Largest number of neighbours of each element, so that the features fit."""
    return [max(max((ref.nbrs(i, c, p["rcut"], p["scal"], z) or 0) for c in range(ref.n)) for i in range(ref.nf)) for z in p["nbrs"]]
