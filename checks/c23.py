import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, json, math, re, subprocess, sysconfig
import numpy as np
from sim import driver
from sim.core import HarnessError, Violation

KINDS = ["St", "Su", "Bl", "Nl", "Tr"]
LOCKS = ["pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=bool,enum,nonnull-attribute,returns-nonnull-attribute,vla-bound"]     # copying an unused field is harmless


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- reference model
def lows(m):
    return [-(k // 2) + 1 if k % 2 == 0 else -((k - 1) // 2) for k in m]


def supercell(st, m):
    L, Z, X, O, out = st
    lo = lows(m)
    sh = np.array([[a, b, c] for a in range(lo[0], lo[0] + m[0]) for b in range(lo[1], lo[1] + m[1]) for c in range(lo[2], lo[2] + m[2])], float)
    X2 = (X[None, :, :] + (sh @ L)[:, None, :]).reshape(-1, 3)
    return L * np.array(m, float)[:, None], np.tile(Z, len(sh)), X2, O + np.array(lo, float) @ L, out


def planes(L):
    v = abs(np.linalg.det(L))
    return np.array([v / np.linalg.norm(np.cross(L[1], L[2])), v / np.linalg.norm(np.cross(L[0], L[2])), v / np.linalg.norm(np.cross(L[0], L[1]))])


def limits(L, O):
    c = np.array(list(itertools.product([0, 1], repeat=3)), float) @ L + O
    return np.stack([c.min(0), c.max(0)], 1)


def neighbours(st, rcut, pbc, least=1e-6):
    """Per atom: (j, vector, distance) of every image closer than rcut (and those in doubt)."""
    L, Z, X, O, out = st
    e = [int(math.ceil(rcut / d)) + 1 if p else 0 for d, p in zip(planes(L), pbc)]
    sh = np.array(list(itertools.product(*[range(-k, k + 1) for k in e])), float) @ L
    res = []
    for i in range(len(Z)):
        V = X[None, :, :] + sh[:, None, :] - X[i]
        D = np.linalg.norm(V, axis=2)
        s, j = np.nonzero((D < rcut + 1e-7) & (D > least))
        res.append((j, V[s, j], D[s, j]))
    return res


def same_atoms(Z, X, Z2, X2):
    """Are the two unordered sets of atoms equal?"""
    if len(Z) != len(Z2):
        return f"{len(Z2)} atoms instead of {len(Z)}"
    D = np.abs(X[:, None, :] - X2[None, :, :]).max(2)
    k = D.argmin(1)
    if D[np.arange(len(k)), k].max() > 1e-6:
        i = int(D[np.arange(len(k)), k].argmax())
        return f"no atom at {X[i].round(6).tolist()}"
    if len(set(k.tolist())) != len(k):
        return "an atom twice"
    if (Z2[k] != Z).any():
        return "wrong element"
    return None


class Toks:
    def __init__(self, s):
        self.t, self.i = s.split(), 0

    def __next__(self):
        self.i += 1
        if self.i > len(self.t):
            raise Violation("output", "output ends early")
        return self.t[self.i - 1]

    def ints(self, n):
        return np.array([int(next(self)) for _ in range(n)], int)

    def flts(self, n):
        v = self.t[self.i:self.i + n]
        self.i += n
        return np.array(v, float)

    def key(self, k):
        x = next(self)
        if x != k:
            raise Violation("output", f"'{x}' instead of '{k}'")

    def end(self):
        if self.i != len(self.t):
            raise Violation("output", f"more than there should be: {self.t[self.i:self.i + 5]}")


def near(what, got, want, tol=1e-7):
    if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-9, atol=tol):
        raise Violation("value", f"{what} is {np.asarray(got).round(6).tolist()} instead of {np.asarray(want).round(6).tolist()}"[:300])


def check_st(t, st):
    n = int(next(t))
    if st is None:
        if n:
            raise Violation("value", f"a null structure has {n} atoms")
        return None
    L, Z, X, O, _ = st
    if n != len(Z):
        raise Violation("value", f"{n} atoms instead of {len(Z)}")
    t.key("L"); near("lattice", t.flts(9).reshape(3, 3), L)
    t.key("O"); near("origin", t.flts(3), O)
    t.key("P"); near("projected lengths", t.flts(3), np.abs(L).sum(0))
    t.key("I"); near("interplanar distances", t.flts(3), planes(L))
    t.key("M"); near("limits", t.flts(6).reshape(3, 2), limits(L, O))
    t.key("Z"); z = t.ints(n)
    t.key("X"); x = t.flts(3 * n).reshape(n, 3)
    e = same_atoms(Z, X, z, x)
    if e:
        raise Violation("value", f"structure: {e}")
    return z, x


def check_su(t, su, free=False):
    n, pn = int(next(t)), int(next(t))
    t.key("S"); m = t.ints(3)
    if su is None:
        if n or pn or list(m) != [1, 1, 1]:
            raise Violation("value", f"a null supercell has {n} atoms, scaling {m.tolist()}")
        return None
    st, want = su
    if not free and list(m) != list(want):
        raise Violation("value", f"scaling {m.tolist()} instead of {want}")
    if pn != len(st[1]) or n != pn * int(np.prod(m)):
        raise Violation("value", f"{n} atoms, {pn} of them in the cell, for scaling {m.tolist()}")
    t.key("C"); cell = t.ints(4)
    t.key("W"); own = t.ints(pn)
    t.key("T")
    z, x = check_st(t, supercell(st, list(m)))
    if len(set(own.tolist())) != pn or own.min() < 0 or own.max() >= n:
        raise Violation("value", f"owned atoms {own.tolist()}")
    near("position of the owned atoms", x[own], st[2])
    if (z[own] != st[1]).any():
        raise Violation("value", "elements of the owned atoms")
    if cell[1:].tolist() != [-k for k in lows(m.tolist())] or not 0 <= cell[0] * pn <= n - pn:
        raise Violation("value", f"the original cell is number {cell.tolist()} of {m.tolist()}")
    near("position of the atoms of the original cell", x[cell[0] * pn:][:pn], st[2])
    return z, x, own


def check_neigh(what, ref, i, rcut, j, v, sort=False):
    """One atom's neighbours: indices j (or None) and vectors v against the reference."""
    rj, rv, rd = ref[i]
    sure = rd < rcut - 1e-7
    if len(v) < sure.sum() or len(v) > len(rd):
        raise Violation("neighbours", f"{what}: atom {i} has {len(v)} neighbours instead of {int(sure.sum())}")
    if len(v):
        D = np.abs(rv[:, None, :] - v[None, :, :]).max(2)
        k = D.argmin(0)
        if D[k, np.arange(len(k))].max() > 1e-6:
            raise Violation("neighbours", f"{what}: atom {i} has a neighbour where none is")
        if len(set(k.tolist())) != len(k):
            raise Violation("neighbours", f"{what}: atom {i} has one neighbour twice")
        if not set(np.nonzero(sure)[0].tolist()) <= set(k.tolist()):
            raise Violation("neighbours", f"{what}: atom {i} lacks a neighbour")
        if j is not None and (rj[k] != j).any():
            raise Violation("neighbours", f"{what}: atom {i}: wrong index of a neighbour")
        if sort and (np.diff(np.linalg.norm(v, axis=1)) < -1e-9).any():
            raise Violation("neighbours", f"{what}: atom {i}: neighbours not in order of distance")


def check_bl(t, bl, ref=None):
    n, pn = int(next(t)), int(next(t))
    if bl is None:
        if n or pn:
            raise Violation("value", f"a null bin list has {n} atoms")
        return None
    st, rcut, pbc, bs = bl[:4]
    if pn != len(st[1]):
        raise Violation("value", f"bin list of {pn} atoms instead of {len(st[1])}")
    t.key("B"); near("bin size", t.flts(3), bs)
    t.key("N"); t.ints(2)
    t.key("K"); ok, home = t.ints(2)
    if not ok or not home:
        raise Violation("bins", "a neighbour bin lies outside the box" if not ok else "an atom's own bin is not searched")
    t.key("A")
    lists = []
    t.key(";")
    for i in range(pn):
        cur = []
        while True:
            x = next(t)
            if x in (";", "U"):
                break
            cur.append(int(x))
        lists.append(np.array(cur, int))
    z, x, own = check_su(t, (st, None), free=True)
    ref = ref or neighbours(st, rcut, pbc)
    for i, l in enumerate(lists):
        if len(l) and (l.min() < 0 or l.max() >= n):
            raise Violation("neighbours", "index outside the supercell")
        v = x[l] - x[own[i]] if len(l) else np.zeros((0, 3))
        check_neigh("bin list", ref, i, rcut, None, v)
    return lists


def check_nl(t, nl):
    n = int(next(t))
    if nl is None:
        if n:
            raise Violation("value", f"a null neighbour list has {n} atoms")
        return
    st, rcut, pbc, bs, sort = nl
    Z = st[1]
    if n != len(Z):
        raise Violation("value", f"neighbour list of {n} atoms instead of {len(Z)}")
    ref = neighbours(st, rcut, pbc)
    t.key("R"); near("cutoff", t.flts(1), [rcut])
    t.key("G"); mx = int(next(t))
    t.key("H")
    kinds = sorted(set(Z.tolist()))
    ss = {}
    for _ in range(len(kinds) ** 2):
        a, b, k = t.ints(3)
        ss[int(a), int(b)] = int(k)
    t.key("F"); inum, ng, um = t.ints(3)
    if inum != n or ng != 0:
        raise Violation("value", f"inum {inum}, nghost {ng} for {n} atoms")
    t.key("i")
    if t.ints(n).tolist() != list(range(n)):
        raise Violation("value", "ilist")
    t.key("t")
    if t.ints(n).tolist() != Z.tolist():
        raise Violation("value", "types")
    most, per = 0, {k: 0 for k in ss}
    for i in range(n):
        t.key("c")
        nn, ls = t.ints(2)
        a = t.flts(um * 4).reshape(um, 4)
        if nn != ls or nn > um:
            raise Violation("value", f"numneigh {nn}, list {ls}")
        if (a[nn:, 0] != -1).any() or (a[nn:, 1:] != 0).any():
            raise Violation("value", "the padding is not -1 and 0")
        j = a[:nn, 0].astype(int)
        if ((j < 0) | (j >= n)).any():
            raise Violation("neighbours", "index outside the cell")
        check_neigh("neighbour list", ref, i, rcut, j, a[:nn, 1:], sort)
        most = max(most, nn)
        for b in kinds:
            per[Z[i], b] = max(per[Z[i], b], int((Z[j] == b).sum()))
    if most != mx or per != ss:
        raise Violation("value", f"largest number of neighbours {mx} {ss} instead of {most} {per}")
    t.key("Y")
    check_bl(t, nl, ref)


def env_ref(v, rc, rs):
    r = np.linalg.norm(v, axis=1)
    u = (r - rs) / (rc - rs)
    sw = np.where(r < rs, 1., np.where(r < rc, u**3 * (-6 * u**2 + 15 * u - 10) + 1, 0.))
    ds = np.where((r < rs) | (r >= rc), 0., (-30 * u**4 + 60 * u**3 - 30 * u**2) / (rc - rs))
    g = sw / r
    dg = ds / r - sw / r**2
    h, dh = g / r, dg / r - g / r**2
    val = np.concatenate([g[:, None], h[:, None] * v], 1)
    d0 = (dg / r)[:, None] * v
    dv = h[:, None, None] * np.eye(3) + (dh / r)[:, None, None] * v[:, :, None] * v[:, None, :]
    return np.concatenate([val, d0, dv.reshape(len(v), 9)], 1)


def match(what, mine, want, more=False):
    """Rows in any order; the rest of mine must be zero."""
    if len(want) > len(mine):
        if more:
            return
        raise Violation("environment", f"{what}: {len(want)} neighbours in {len(mine)} places")
    want = np.concatenate([want, np.zeros((len(mine) - len(want), want.shape[1]))])
    # compare after sorting along a generic direction
    w = np.array(([1, .37, .73, .19] + [.11 * (a + 1) for a in range(15)])[:want.shape[1]])
    a, b = mine[np.argsort(mine @ w)], want[np.argsort(want @ w)]
    if not np.allclose(a, b, atol=1e-7):
        used = set()
        for row in want:
            c = [y for y in range(len(mine)) if y not in used and np.allclose(mine[y], row, atol=1e-7)]
            if not c:
                raise Violation("environment", f"{what}: no row {row[:4].round(6).tolist()}")
            used.add(c[0])


def check_env(t, nl, rs, lmp=False):
    n = int(next(t))
    st, rcut, pbc, bs, sort = nl
    Z = st[1]
    if n != len(Z):
        raise Violation("value", f"environment of {n} atoms instead of {len(Z)}")
    ref = neighbours(st, rcut, pbc)
    x = next(t)
    if x == "none":
        if any((r[2] < rcut - 1e-7).any() for r in ref):
            raise Violation("neighbours", "no neighbours at all")
        return
    um = int(x)
    kinds = sorted(set(Z.tolist()))
    t.key("p"); per = t.ints(len(kinds))
    off = np.concatenate([[0], np.cumsum(per)])
    grouped = [i for k in kinds for i in range(n) if Z[i] == k]
    for order, sign, what in [(grouped, -1, "allocated"), (grouped, -1, "filled in"), (range(n), -1, "flat")] if lmp else [(range(n), 1, "matrix")]:
        t.key("r"); r = t.flts(n * um * 4).reshape(n, um, 4)
        t.key("d"); d = t.flts(n * um * 12).reshape(n, um, 12)
        extra = what == "flat"
        if extra:
            t.key("q"); q = t.flts(n * um * 3).reshape(n, um, 3)
            t.key("i"); pi = t.ints(n * um).reshape(n, um)
        for a, i in enumerate(order):
            j, v, D = ref[i]
            for c, k in enumerate(kinds):
                here = slice(off[c], off[c + 1])
                mine = np.concatenate([r[a], d[a]] + ([q[a]] if extra else []), 1)[here]
                sel = Z[j] == k
                want = env_ref(v[sel], rcut, rs) * np.array([1] * 4 + [sign] * 12)
                more = bool((D[sel] > rcut - 1e-7).any())
                if extra:
                    want = np.concatenate([want, v[sel]], 1)
                    if not more and sorted(pi[a][here].tolist()) != sorted(j[sel].tolist() + [-1] * (per[c] - int(sel.sum()))):
                        raise Violation("environment", f"{what}: atom {i}, kind {k}: indices {pi[a][here].tolist()}")
                match(f"{what}: atom {i}, kind {k}", mine, want, more)


def check_tr(t, tr):
    n, m = int(next(t)), int(next(t))
    if tr is None:
        if n or m:
            raise Violation("value", f"an empty descriptor has shape {n} x {m}")
        return
    nl, cl, ngl, pads, rs = tr
    st, rcut, pbc = nl[:3]
    Z = st[1]
    ref = neighbours(st, rcut, pbc)
    if any((r[2] > rcut - 1e-7).any() for r in ref):       # a neighbour in doubt: the sizes are, too
        t.i = len(t.t)
        return
    order = [i for k in cl for i in range(len(Z)) if Z[i] == k]
    per = pads or [max(int((Z[r[0]] == k).sum()) for r in ref) for k in ngl]
    if n != len(order) or m != sum(per):
        raise Violation("value", f"shape {n} x {m} instead of {len(order)} x {sum(per)}")
    if not n or not m:
        return
    t.key("r"); r = t.flts(n * m * 4).reshape(n, m, 4)
    t.key("d"); d = t.flts(n * m * 12).reshape(n, m, 12)
    off = np.concatenate([[0], np.cumsum(per)])
    for a, i in enumerate(order):
        j, v, D = ref[i]
        for c, k in enumerate(ngl):
            match(f"descriptor: atom {i}, kind {k}", np.concatenate([r[a], d[a]], 1)[off[c]:off[c + 1]], env_ref(v[Z[j] == k], rcut, rs) * np.array([1] * 4 + [-1] * 12))


CHECK = {"St": check_st, "Su": check_su, "Bl": check_bl, "Nl": check_nl, "Tr": check_tr}


class C23(driver.Check):
    id = "C23"
    technique = "deterministic simulation: object histories of several threads under a seeded scheduler at basic-block granularity and a hostile allocator, checked against a reference model under sanitizers"
    real = ["source/nblist/include, source/nblist/bind/nblist_bind.cc, source/descriptor/deepmd/include/{envMatrix,se,se4pw}.h (compiled from the working tree, ASan+UBSan)", "pthreads, malloc"]
    stub = ["thread scheduler (one thread runs at a time; switches at numbered basic blocks)", "contents of fresh memory"]
    rule = ("a case is one simulated process: shared structures and lists that nobody changes, and one to three threads that build, copy, assign (to "
            "themselves too), clear, pass by value, keep in containers, query and destroy objects; preempted at chosen basic blocks; non-trivial when an object "
            "was copied or assigned or a thread was preempted; distinct by (workload, output digest)")
    assumptions = ["memory allocation succeeds", "atoms lie inside the cell along periodic directions", "no two atoms closer than 0.04",
                   "an object that one thread changes is used by no other thread"]
    quick = (190, 4)
    thorough = (5000, 8)

    @staticmethod
    def prepare(d):
        n = os.path.join(driver.VERIF, "native")
        r = os.path.join(repo(), "source")
        jobs = [["g++", "-std=c++17", "-O1", "-DSIM_LOCKS", "-c", n + "/simsched.cc", "-o", d + "/sched.o"],
                ["g++", "-std=c++17", "-O1", "-g", "-w", *SAN, "-fsanitize-coverage=trace-pc", "-I" + r, "-I" + n, "-c", n + "/nblist.cc", "-o", d + "/nblist.o"]]
        jobs.append(["g++", "-std=c++17", "-O1", "-g", "-w", "-fPIC", "-ftls-model=initial-exec", "-shared", *SAN, "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(), "-I" + r + "/nblist/include",
                     n + "/nbmod.cc", n + "/simsched.cc", r + "/nblist/bind/nblist_bind.cc", "-o", d + "/nbmod.so"])
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in jobs]
        outs = [p.communicate()[0] for p in ps]
        if any(p.returncode for p in ps):
            raise HarnessError("the neighbour list does not compile:\n" + "".join(outs)[-2000:])
        p = subprocess.run(["g++", *SAN, *["-Wl,--wrap=" + f for f in LOCKS], d + "/nblist.o", d + "/sched.o", "-o", d + "/nblist", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise HarnessError("link:\n" + p.stdout[-2000:])

    def setup(self):
        self.prep = os.environ["VERIF_PREP"]
        self.exe = os.path.join(self.prep, "nblist")
        self.asan = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()

    # ------------------------------------------------------------ workloads
    def _data(self, r, n=None):
        while True:
            shape = r.choice(["cubic", "hex", "tri", "tri", "ortho", "rot"])
            a, b, c = (r.uniform(2.4, 6.5) for _ in range(3))
            if shape == "cubic":
                L = np.eye(3) * round(a, 2)
            elif shape == "ortho":
                L = np.diag([a, b, c])
            elif shape == "hex":
                L = np.array([[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, c]])
            else:
                L = np.diag([a, b, c]) + np.array([[0 if i == j else r.uniform(-1.2, 1.2) for j in range(3)] for i in range(3)])
                if shape == "rot":
                    t = r.uniform(0, 6)
                    L = L @ np.array([[math.cos(t), math.sin(t), 0], [-math.sin(t), math.cos(t), 0], [0, 0, 1]])
            if np.linalg.det(L) < 8:
                continue
            n = n or r.choice([1, 1, 2, 3, 4, 6])
            F = np.array([[r.choice([0., 0., .5, 1 / 3, .25]) if r.random() < .4 else r.uniform(0, .999) for _ in range(3)] for _ in range(n)])
            out = []
            if r.random() < .2:
                out = [r.randrange(3)]
                F[r.randrange(n), out[0]] = r.choice([-.3, 1.2, 2.4, -1.7])
            Z = [r.choice([1, 3, 8, 8, 14, 29, 92]) for _ in range(n)]
            X = F @ L
            st = (L, np.array(Z), X, np.zeros(3), tuple(out))
            if any((x[2] < .5).sum() > 1 for x in neighbours(st, 1., [True] * 3, -1)):
                continue
            cart = r.random() < .5
            return {"n": n, "cart": cart, "lat": L.tolist(), "z": Z, "x": (X if cart else F).tolist(), "out": out}

    @staticmethod
    def _st(d):
        L, x = np.array(d["lat"]), np.array(d["x"])
        return L, np.array(d["z"]), x if d["cart"] else x @ L, np.zeros(3), tuple(d["out"])

    def _make(self, r, k, a, b, st, alike=False):
        if k == "Su":
            while True:
                m = [r.choice([1, 1, 2, 3, 4, 5]) for _ in range(3)]
                if r.random() < .5:                        # as many atoms, arranged otherwise
                    m = list(self.pool["m"])
                    r.shuffle(m)
                if len(st[1]) * np.prod(m) <= 150:
                    return ["make", k, a, b, m]
        pl = planes(st[0])
        for _ in range(60):
            rc = r.choice([r.uniform(1.2, 5.5), r.uniform(1.2, 3), *self.pool["rc"], *self.pool["rc"]])
            if alike:
                rc = self.pool["rc"][0]
            elif len(st[1]) < 3 and r.random() < .08:        # more than a hundred neighbours
                rc = r.uniform(2.7, 3.4) * min(pl)
            pbc = [i not in st[4] and r.random() < .85 for i in range(3)]
            m = [2 * math.ceil(rc / d) + 1 if p else 1 for d, p in zip(pl, pbc)]
            if len(st[1]) * np.prod(m) > (500 if rc < 5.5 else 1000) or any((abs(x[2] - rc) < 1e-5).any() for x in neighbours(st, rc + .01, pbc)):
                continue
            bs = [rc * (r.choice([.5, 1., 1.5, 2.5]) if r.random() < .4 else r.uniform(.35, 1.6)) for _ in range(3)] if r.random() < .4 else None
            return ["make", k, a, b, rc, pbc, bool(r.random() < .5), bs]
        return None

    def _gen_py(self, r):
        calls, steps, held = [], [], []
        while len(calls) < 3:
            d = self._data(r)
            o = self._make(r, "Nl", "", "", self._st(d))
            if o:
                most = max(int((x[2] < o[4]).sum()) for x in neighbours(self._st(d), o[4], o[5]))
                calls.append({**{k: d[k] for k in ("lat", "z", "x", "cart", "out", "n")}, "rc": o[4], "pbc": o[5], "sort": o[6], "um": max(1, most + r.choice([0, 0, 1, 7]))})
        for i in range(r.choice([2, 5, 9])):
            steps.append(["call", i, r.randrange(3)])
            held.append(i)
            while held and r.random() < .5:
                k = r.choice(held)
                c = r.choice(["dump", "drop", "part"])
                steps.append([c, k, r.randrange(1, 6)] if c == "part" else [c, k])
                if c != "dump":
                    held.remove(k)
        steps += [["dump", k] for k in held]
        return {"py": True, "calls": calls, "steps": steps, "fill": r.randrange(256), "opts": {}}

    def gen(self, r, j):
        self.pool = {"m": r.choice([[1, 1, 2], [1, 2, 3], [1, 1, 3], [2, 2, 1], [1, 2, 4]]), "rc": [r.uniform(1.2, 5)]}
        if r.random() < .1:
            return self._gen_py(r)
        n = r.choice([None, 1, 2, 3, 4])                   # often all of one size
        data = [self._data(r, n) for _ in range(r.choice([1, 2, 3]))]
        case = {"data": data, "main": [], "threads": [], "switch": [], "fill": r.randrange(256), "opts": {}}
        shared = {}
        self._ops(r, case["main"], data, "g", shared, {}, r.choice([2, 3, 5]))
        nt = r.choice([1, 1, 2, 2, 3])
        for t in range(nt):
            ops = []
            own = {}
            if r.random() < .3:                            # several alike to begin with
                self._alike(r, ops, data, own, dict(shared))
            self._ops(r, ops, data, "p", own, dict(shared), r.choice([3, 5, 8, 12]))
            case["threads"].append(ops)
        if nt > 1 and r.random() < .5:                     # the same work in two threads
            k = r.randrange(nt)
            case["threads"][k] = [list(o) for o in case["threads"][k - 1]]
        return case

    @staticmethod
    def _tilde(r, a, b):
        perm = lambda: r.sample(range(7), 7)[:r.choice([7, 7, 7, 3])]
        return ["tilde", "Tr", a, b, perm(), perm(), r.uniform(.2, .95), r.choice([None, None, 0, 2])]

    def _alike(self, r, ops, data, own, other):
        def do(o):
            if o:
                ops.append(o)
                self._apply(o, data, own, other)
        first = r.randrange(len(data))
        for a in "01":
            do(["build", "St", "Stp" + a, (int(a) + first) % len(data)])
        k = r.choice(KINDS)
        if k == "St":
            for a in "01":
                m = list(self.pool["m"])
                r.shuffle(m)
                do(["super", "St", "Stp" + a, m])
        else:
            for a in "01":
                do(self._make(r, "Nl" if k == "Tr" else k, ("Nl" if k == "Tr" else k) + "p" + a, "Stp" + a, own["Stp" + a], True))
            for a in "01":
                if k == "Tr" and "Nlp" + a in own:
                    do(self._tilde(r, "Trp" + a, "Nlp" + a))
        if k + "p0" in own and k + "p1" in own:
            do(["assign", k, k + "p0", k + "p1"])

    def _ops(self, r, ops, data, pre, own, other, n):
        """Appends n steps; own: objects this side may change, other: objects it may only read."""
        for i in range(n):
            names = {k: sorted(x for x in own if x[:2] == k) for k in KINDS}
            read = {k: sorted(x for x in {**own, **other} if x[:2] == k) for k in KINDS}
            new = lambda k: k + pre + str(r.randrange(3))
            c = r.choice(["build", "build", "super", "make", "make", "make", "make", "null", "copy", "copy", "assign", "assign", "assign", "self", "chain",
                          "clear", "byval", "vec", "drop", "dump", "dump", "env", "env", "lmp", "tilde", "tilde", "tilde"])
            k = r.choice(KINDS)
            full = [x for x in read["St"] if {**own, **other}[x] is not None]
            if c == "build" or not full:
                ops.append([r.choice(["build", "build2"]), "St", new("St"), r.randrange(len(data))])
            elif c == "super" and names["St"]:
                m = [r.choice([1, 1, 2, 3]) for _ in range(3)]
                ops.append(["super", "St", r.choice(names["St"]), m])
            elif c == "make":
                k = r.choice(["Su", "Bl", "Nl", "Nl"])
                b = r.choice(full)
                o = self._make(r, k, new(k), b, {**own, **other}[b])
                if o:
                    ops.append(o)
            elif c == "null":
                ops.append([c, k, new(k)])
            elif c in ("copy", "byval", "vec") and read[k]:
                ops.append([c, k, new(k), r.choice(read[k])])
            elif c == "assign" and read[k] and names[k]:
                ops.append([c, k, r.choice(names[k]), r.choice(read[k])])
            elif c == "self" and names[k]:
                a = r.choice(names[k])
                ops.append(["assign", k, a, a])
            elif c == "chain" and names[k]:
                ops.append([c, k, r.choice(names[k]), r.choice(names[k]), r.choice(read[k])])
            elif c in ("clear", "drop") and names[k]:
                ops.append([c, k, r.choice(names[k])])
            elif c == "dump" and read[k]:
                ops.append([c, k, r.choice(read[k])])
            elif c == "tilde" and [x for x in read["Nl"] if {**own, **other}[x] is not None]:
                ops.append(self._tilde(r, new("Tr"), r.choice([x for x in read["Nl"] if {**own, **other}[x] is not None])))
            elif c in ("env", "lmp") and [x for x in read["Nl"] if {**own, **other}[x] is not None]:
                ops.append([c, "Nl", r.choice([x for x in read["Nl"] if {**own, **other}[x] is not None]), r.uniform(.2, .95)])
            else:
                continue
            self._apply(ops[-1], data, own, other)

    def _apply(self, o, data, own, other):
        """Model of one step; returns (script line or None if void, what to check)."""
        c, k, a = o[0], o[1], o[2]
        see = {**other, **own}
        nm = lambda x: x[2:]
        line, chk = None, None
        if c in ("build", "build2"):
            own[a] = self._st(data[o[3]])
            line = f"{c} St {nm(a)} {o[3]}"
        elif c == "super":
            if own.get(a) is None or len(own[a][1]) * np.prod(o[3]) > 40:
                return None, None
            own[a] = supercell(own[a], o[3])
            line = f"super St {nm(a)} {o[3][0]} {o[3][1]} {o[3][2]}"
        elif c == "make":
            s = see.get(o[3])
            if s is None:
                return None, None
            if k == "Su":
                if len(s[1]) * np.prod(o[4]) > 800:
                    return None, None
                own[a] = (s, o[4])
                line = f"make Su {nm(a)} {nm(o[3])} {o[4][0]} {o[4][1]} {o[4][2]}"
            else:
                rc, pbc, sort, bs = o[4:]
                pbc = [p and i not in s[4] for i, p in enumerate(pbc)]
                m = [2 * math.ceil(rc / d) + 1 if p else 1 for d, p in zip(planes(s[0]), pbc)]
                if len(s[1]) * np.prod(m) > 1500:
                    return None, None
                b = np.array(bs if bs else [rc / 2] * 3)
                own[a] = (s, rc, pbc, b) if k == "Bl" else (s, rc, pbc, b, sort)
                line = f"make {k} {nm(a)} {nm(o[3])} {rc!r} {int(pbc[0])} {int(pbc[1])} {int(pbc[2])} {int(sort)} {int(bool(bs))} {float(b[0])!r} {float(b[1])!r} {float(b[2])!r}"
        elif c == "null":
            own[a] = None
            line = f"null {k} {nm(a)}"
        elif c in ("copy", "byval", "vec"):
            if o[3] not in see:
                return None, None
            own[a] = see[o[3]]
            line = f"{c} {k} {nm(a)} {nm(o[3])}"
        elif c == "assign":
            if a not in own or o[3] not in see:
                return None, None
            own[a] = see[o[3]]
            line = f"assign {k} {nm(a)} {nm(o[3])}"
        elif c == "chain":
            if a not in own or o[3] not in own or o[4] not in see:
                return None, None
            own[a] = own[o[3]] = see[o[4]]
            line = f"chain {k} {nm(a)} {nm(o[3])} {nm(o[4])}"
        elif c == "clear":
            if a not in own:
                return None, None
            own[a] = None
            line = f"clear {k} {nm(a)}"
        elif c == "drop":
            if a not in own:
                return None, None
            del own[a]
            line = f"drop {k} {nm(a)}"
        elif c == "dump":
            if a not in see:
                return None, None
            line, chk = f"dump {k} {nm(a)}", ("dump", k, see[a])
        elif c in ("env", "lmp"):
            if see.get(a) is None:
                return None, None
            rs = see[a][1] * o[3]
            line, chk = f"{c} Nl {nm(a)} {rs!r}", (c, k, see[a], rs)
        elif c == "tilde":
            if see.get(o[3]) is None:
                return None, None
            nl = see[o[3]]
            Z = nl[0][1]
            kinds = sorted(set(Z.tolist()))
            pick = lambda w: [kinds[i % len(kinds)] for i in w if i < len(kinds)] or [kinds[0]]
            cl, ngl = pick(o[4]), pick(o[5])
            rs, pads = nl[1] * o[6], None
            if o[7] is not None:
                ref = neighbours(nl[0], nl[1], nl[2])
                pads = [max(int((Z[x[0]] == q).sum()) for x in ref) + o[7] for q in ngl]
            own[a] = (nl, cl, ngl, pads, rs)
            line = f"tilde Tr {nm(a)} {nm(o[3])} {rs!r} {len(cl)} {' '.join(map(str, cl))} {len(ngl)} {' '.join(map(str, ngl))} {int(bool(pads))} {' '.join(map(str, pads or []))}"
        return line, chk

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        case["fill"] = r.randrange(256)
        if case.get("py"):
            self.pool = {"m": [1, 1, 2], "rc": [r.uniform(1.2, 5)]}
            return {**self._gen_py(r), "seed": case["seed"]}
        n, nt = info.get("blocks", 0), len(case["threads"])
        if nt > 1 and n > 10:
            m = r.choice([1, 2, 3, 6, 15, 60, 400, 1500])
            at = {r.randrange(1, n) for _ in range(m)}
            if r.random() < .3:                            # close to one another
                b = r.randrange(1, n)
                at |= {b + r.randrange(1, 400) for _ in range(8)}
            case["switch"] = [[b, r.randrange(nt)] for b in sorted(at)]
        return case

    # ------------------------------------------------------------ one run
    def _run_py(self, sim, case):
        env = {"ASAN_OPTIONS": f"detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1073741824:malloc_fill_byte={case['fill']}", "PATH": "/usr/bin:/bin", "LD_PRELOAD": self.asan,
               "PYTHONMALLOC": "malloc", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(driver.VERIF, "native/nbpy.py"), self.prep], input=json.dumps(case), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, env=env, timeout=100)
        except subprocess.TimeoutExpired:
            raise Violation("hang", "the process does not end")
        sim.log += p.stdout.splitlines()[:-1]
        sim.injected["garbage-in-fresh-memory"] += 1
        if p.returncode:
            e = re.search(r"(ERROR: AddressSanitizer:? [\w -]+?(?= on| \(|\n)|[\w/.]+:\d+:\d+: runtime error: [^\n]*)", p.stderr)
            raise Violation("process-death", f"binding: status {p.returncode}: {e.group(1) if e else p.stderr[-200:]}"[:400])
        out = [json.loads(l) for l in p.stdout.splitlines()]
        what, st = {}, {"py"}
        want = []
        for s in case["steps"]:
            if s[0] == "call":
                what[s[1]] = case["calls"][s[2]]
            elif s[0] == "dump":
                want.append((s[1], what[s[1]]))
            elif s[0] == "part":
                want.append(None)
        full = {}
        for o in out[:-1]:
            if o == "changed":
                raise Violation("binding", "the arrays passed in are changed")
            if o[0] != "part":
                self._binding(o, what[o[0]])
            else:
                self._part(o, what[o[1]])
        if len(out) - 1 != len(want) or out[-1][0] != "grow":
            raise Violation("output", f"{len(out)} outputs")
        for c, (a, b, size, refs) in zip(case["calls"], out[-1][1]):
            if a >= 8 and b >= 8:
                raise Violation("leak", f"8 calls of the binding ({c['n']} atoms, room for {c['um']} neighbours) leave {b} blocks ({size} bytes) behind after the results are dropped")
            if refs != [2, 2, 2] and len(set(refs)) > 0 and max(refs) > 6:
                raise Violation("leak", f"references to the arguments are kept: {refs}")
        return {"states": sorted(st), "blocks": 0}

    def _binding(self, o, c):
        n, um, st = c["n"], c["um"], self._st(c)
        _, inum, il, nn, fn, rc, ty, ng, dt = o
        if dt != ["int32", "int32", "int32", "float64", "int32"]:
            raise Violation("binding", f"types {dt}")
        if inum != n or il != list(range(n)) or ng != 0 or ty != c["z"] or np.shape(fn) != (n, um) or np.shape(rc) != (n, um, 3):
            raise Violation("binding", f"inum {inum} ilist {il} types {ty} nghost {ng} shapes {np.shape(fn)} {np.shape(rc)}"[:300])
        ref = neighbours(st, c["rc"], c["pbc"])
        fn, rc = np.array(fn), np.array(rc)
        for i in range(n):
            if (fn[i, nn[i]:] != -1).any() or (rc[i, nn[i]:] != 0).any():
                raise Violation("binding", "the padding is not -1 and 0")
            check_neigh("binding", ref, i, c["rc"], fn[i, :nn[i]], rc[i, :nn[i]], c["sort"])

    def _part(self, o, c):
        """One array of a result whose other arrays are gone."""
        _, _, k, v = o
        n, um = c["n"], c["um"]
        ref = neighbours(self._st(c), c["rc"], c["pbc"])
        cnt = [len(x[0]) for x in ref]
        v = np.array(v)
        if k == 1:
            ok = v.tolist() == list(range(n))
        elif k == 2:
            ok = v.tolist() == cnt
        elif k == 5:
            ok = v.tolist() == c["z"]
        elif k == 3:
            ok = v.shape == (n, um) and all(sorted(v[i, :cnt[i]].tolist()) == sorted(ref[i][0].tolist()) and (v[i, cnt[i]:] == -1).all() for i in range(n))
        else:
            ok = v.shape == (n, um, 3) and all(np.allclose(sorted(np.linalg.norm(v[i, :cnt[i]], axis=1)), sorted(ref[i][2]), atol=1e-7) for i in range(n))
        if not ok:
            raise Violation("binding", f"array {k} of a result changes once the rest of the result is dropped")

    def run(self, sim, case):
        if case.get("py"):
            return self._run_py(sim, case)
        script, want = [], {}
        for i, d in enumerate(case["data"]):
            script.append(f"data {i} {d['n']} {int(d['cart'])} " + " ".join(repr(float(v)) for row in d["lat"] for v in row) + " " + " ".join(map(str, d["z"]))
                          + " " + " ".join(repr(float(v)) for row in d["x"] for v in row))
        script += [f"switch {b} {t}" for b, t in case["switch"]]
        shared = {}
        mi = 0

        def main(o, own, other):
            nonlocal mi
            line, chk = self._apply(o, case["data"], own, other)
            if line:
                script.append("main " + line)
                if chk:
                    want[f"m.{mi}"] = (o, chk)
                mi += 1
        for o in case["main"]:
            main(o, shared, {})
        for t, ops in enumerate(case["threads"]):
            own, i = {}, 0
            todo = list(ops)
            while todo:
                o = todo.pop(0)
                line, chk = self._apply(o, case["data"], own, shared)
                if line:
                    script.append(f"thread {t} {line}")
                    if chk:
                        want[f"{t}.{i}"] = (o, chk)
                    i += 1
                    if o[0] in ("copy", "assign", "chain", "byval", "vec", "clear"):      # both sides keep their values
                        for x in dict.fromkeys([o[2]] + o[3:4]):
                            script.append(f"thread {t} dump {o[1]} {x[2:]}")
                            want[f"{t}.{i}"] = (o, ("dump", o[1], {**shared, **own}[x]))
                            i += 1
            for x in sorted(own):
                script.append(f"thread {t} dump {x[:2]} {x[2:]}")
                want[f"{t}.{i}"] = (["end"], ("dump", x[:2], own[x]))
                i += 1
        script.append("go")
        for x in sorted(shared):
            main(["dump", x[:2], x], shared, {})
        lines, live, blocks, sw = self._proc(sim, case, script)
        sim.log += [f"{len(script)} lines"] + lines
        sim.opcount["basic-block"] += blocks
        sim.advance(blocks * 1000)
        sim.interleave.update(sw.encode())
        if case["switch"] and sw.split()[1] != "0":
            sim.injected["preemption"] += int(sw.split()[1])
        sim.injected["garbage-in-fresh-memory"] += 1
        got = {}
        for l in lines:
            tag, kind, rest = (l.split(" ", 2) + [""])[:3]
            if kind == "wrongref":
                raise Violation("value", "an assignment does not return the object itself")
            got[tag] = (kind, rest)
        if set(got) != set(want):
            raise Violation("output", f"{len(got)} outputs for {len(want)} steps")
        for tag in want:
            o, chk = want[tag]
            t = Toks(got[tag][1])
            try:
                if chk[0] in ("env", "lmp"):
                    check_env(t, chk[2], chk[3], chk[0] == "lmp")
                else:
                    CHECK[chk[1]](t, chk[2])
                t.end()
            except Violation as v:
                raise Violation(v.kind, f"after {o[:4]} ({tag}): {v.msg}"[:400])
        if live[0] != "0":
            l3 = self._proc(sim, case, ["rounds 3"] + script)[1]
            if len(l3) == 3 and int(l3[2].split()[0]) > int(l3[1].split()[0]):
                raise Violation("leak", f"{live[0]} blocks, {live[1] if len(live) > 1 else '?'} are not released when every object is destroyed")
        st = {o[0] + ":" + o[1] for ops in case["threads"] for o in ops} | ({"preempted"} if sw.split()[1] != "0" else set())
        return {"states": sorted(st), "blocks": blocks}

    def _proc(self, sim, case, script):
        env = {"ASAN_OPTIONS": f"detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1073741824:malloc_fill_byte={case['fill']}:detect_stack_use_after_return=1", "PATH": "/usr/bin:/bin"}
        try:
            p = subprocess.run([self.exe], input="\n".join(script) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=100)
        except subprocess.TimeoutExpired:
            raise Violation("hang", "the process does not end")
        if p.returncode:
            e = re.search(r"(ERROR: AddressSanitizer:? [\w -]+?(?= on| \(|\n)|[\w/.]+:\d+:\d+: runtime error: [^\n]*)", p.stderr)
            if p.returncode == 97:
                raise HarnessError(p.stderr[-300:])
            fr = re.findall(r"#\d+ 0x\w+ in ([^\n]*?source/\S+)", p.stderr)
            raise Violation("process-death", f"status {p.returncode}: {e.group(1) if e else p.stderr[-200:]} {[os.path.basename(x.split()[-1]) for x in fr[:1]]}"[:400])
        lines = p.stdout.splitlines()
        live = [l[5:] for l in lines if l.startswith("live ")]
        blocks = int([l for l in lines if l.startswith("blocks ")][0].split()[1])
        sw = [l for l in lines if l.startswith("sched ")][0]
        lines = [l for l in lines if not l.startswith(("live ", "blocks ", "sched "))]
        return lines, live if len(live) > 1 else live[0].split(), blocks, sw

    def nontrivial(self, case, info):
        if case.get("py"):
            return True
        return bool(case["switch"]) or any(o[0] not in ("build", "build2", "dump") for ops in case["threads"] for o in ops)

    def shrink(self, case):
        if case.get("py"):
            st = case["steps"]
            for k in {s[1] for s in st}:
                yield {**case, "steps": [s for s in st if s[1] != k]}
            return
        if len(case["threads"]) > 1:
            for t in range(len(case["threads"])):
                yield {**case, "threads": case["threads"][:t] + case["threads"][t + 1:]}
        w = case["switch"]
        k = len(w) // 2
        while k > 1:
            for i in range(0, len(w), k):
                yield {**case, "switch": w[:i] + w[i + k:]}
            k = k // 2 if k < 40 else k // 4
        for i in range(len(w)):
            yield {**case, "switch": case["switch"][:i] + case["switch"][i + 1:]}
        for t, ops in enumerate(case["threads"]):
            for i in range(len(ops)):
                yield {**case, "threads": case["threads"][:t] + [ops[:i] + ops[i + 1:]] + case["threads"][t + 1:]}
        for i in range(len(case["main"])):
            yield {**case, "main": case["main"][:i] + case["main"][i + 1:]}


if __name__ == "__main__":
    driver.main(C23)
