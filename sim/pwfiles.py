"""Reference models of the files MaterSDK reads: each generator returns the text of the
file and the exact values it contains (the oracle)."""
import hashlib
import random

import numpy as np

_SYM = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc "
        "Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn "
        "Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr").split()
ELEMENTS = {i + 1: e for i, e in enumerate(_SYM)}           # independent of the library's own tables
COMMON = [1, 3, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 21, 22, 26, 27, 28, 29, 30, 32, 34, 41, 42, 50, 52, 53, 74]
ZS = sorted(ELEMENTS)


def R(*key):
    return random.Random("/".join(map(str, key)))


def sci(x, d=10):
    """PWmat style 0.1234567890E+02"""
    if x == 0:
        return f"{0:.{d}f}E+00"
    s = "-" if x < 0 else ""
    x = abs(x)
    m, e = f"{x:.{d - 1}E}".split("E")
    e = int(e) + 1
    return f"{s}0.{m.replace('.', '')}E{e:+03d}"


class Frame:
    """One MD frame as written (strings) and as values (floats)."""
    def __init__(self, t, i):
        r = R("frame", t["s"], i)
        self.z = list(t["z"])
        if t.get("shuffle"):
            R("perm", t["s"]).shuffle(self.z)
        if t.get("shuf_each"):                 # atoms listed in another order in each frame
            R("perm", t["s"], i).shuffle(self.z)
        v = R("vary", t["s"], i)
        self.vel = v.random() < .5 and i > 0 if t.get("vary") else bool(t.get("vel"))
        self.hdr2 = v.random() < .5 if t.get("vary") else bool(t.get("hdr2"))
        n = len(self.z)
        a = r.uniform(3, 14)
        box = [[a if p == q else r.uniform(-.3, .3) for q in range(3)] for p in range(3)]
        if t.get("ortho"):
            box = [[(a + p if p == q else 0.0) for q in range(3)] for p in range(3)]
        self.box_s = [[sci(v) for v in row] for row in box]
        self.stress_s = [[sci(r.uniform(-50, 50), 6) for _ in range(3)] for _ in range(3)] if t.get("virial") else None
        lo, hi = (-0.2, 1.2) if t.get("wide") else (0, 1)
        self.pos_s = [[f"{r.uniform(lo, hi):.15f}" for _ in range(3)] for _ in range(n)]
        self.force_s = [[f"{r.uniform(-9, 9):.15f}" for _ in range(3)] for _ in range(n)] if t.get("force", True) else None
        self.vel_s = [[f"{r.uniform(-.9, .9):.15f}" for _ in range(3)] for _ in range(n)] if self.vel else None
        self.ea_s = [[sci(r.uniform(-900, 900)) for _ in range(3)] for _ in range(n)] if t.get("eatom") else None
        self.mag_s = [f"{r.uniform(-5, 5):.6f}" for _ in range(n)] if t.get("mag") else None
        ep, ek = r.uniform(-4e4, -1e3), r.uniform(0, 99)
        self.e_s = [sci(ep + ek), sci(ep), sci(ek)]
        self.it_s = sci(float(i))
        self.nsep = t.get("nsep", 91)
        self.t = t
        self.scf = r.randrange(1, 99)
        q = R("special", t["s"], i)
        if t.get("special"):               # values that look like defaults: exact zeros, repeated values
            zero = [["0.000000000000000"] * 3 for _ in range(n)]
            if self.force_s and q.random() < .3:
                self.force_s = zero
            if self.stress_s and q.random() < .3:
                self.stress_s = [[sci(0, 6)] * 3 for _ in range(3)]
            if self.ea_s and q.random() < .3:
                self.ea_s = [[sci(0)] * 3 for _ in range(n)]
            if q.random() < .2:
                self.e_s = [sci(0), sci(0), sci(0)]
            if q.random() < .2:
                self.e_s = [x.lstrip("-") for x in self.e_s]
            if q.random() < .3:
                self.pos_s = [["0.000000000000000", "0.500000000000000", "1.000000000000000"] for _ in range(n)] if n == 1 else \
                    [zero[0]] + self.pos_s[1:]
            if q.random() < .25:           # small magnitudes: every written digit counts
                k = 10.0 ** -q.choice([3, 6, 9])
                self.e_s = [sci(float(x) * k) for x in self.e_s]
                if self.ea_s:
                    self.ea_s = [[sci(float(x) * k) for x in row] for row in self.ea_s]

    # values
    @property
    def box(self):
        return np.array([float(v) for row in self.box_s for v in row])

    @property
    def coords(self):
        return np.array([float(v) for row in self.pos_s for v in row])

    @property
    def forces(self):
        if self.force_s is None:
            return np.zeros(3 * len(self.z))
        return np.array([float(v) for row in self.force_s for v in row])

    @property
    def etot(self):
        return float(self.e_s[0])

    @property
    def virial(self):
        return None if self.stress_s is None else np.array([float(v) for row in self.stress_s for v in row])

    @property
    def eatoms(self):
        return None if self.ea_s is None else np.array([float(row[0]) for row in self.ea_s])

    @property
    def mags(self):
        return None if self.mag_s is None else np.array([float(m) for m in self.mag_s])

    def text(self):
        n = len(self.z)
        L = [f"   {n} atoms,Iteration (fs) =    {self.it_s}, Etot,Ep,Ek (eV) =   {'   '.join(self.e_s)}, SCF = {self.scf:5d}"]
        if self.hdr2:
            L.append(" MD_INFO: METHOD(1-VV,2-NH,3-LV,4-LVPR,5-NHRP) TIME(fs) TEMP(K) DESIRED_TEMP(K) AVE_TEMP(K) TIME_INTERVAL(fs) TOT_TEMP(K)")
            L.append(f"          1    {self.it_s}   0.3000000000E+03   0.3000000000E+03   0.3000000000E+03   0.1000000000E+03   0.3000000000E+03")
        up = str.upper if self.t.get("upper") else str
        L.append(up(" Lattice vector (Angstrom)"))
        for i in range(3):
            l = "   " + "     ".join(self.box_s[i])
            if self.stress_s:
                l += "     stress (eV):  " + "   ".join(self.stress_s[i])
            L.append(l)
        L.append(up("  Position (normalized), move_x, move_y, move_z"))
        mv = R("move", self.t["s"])
        for z, p in zip(self.z, self.pos_s):
            m = "  ".join(mv.choice("01") for _ in range(3)) if self.t.get("fixed") else "1  1  1"
            L.append(f" {z:3d}      {'      '.join(p)}     {m}")
        if self.force_s:
            L.append(up("  Force (-force, eV/Angstrom)" if self.t.get("fneg") else "  Force (eV/Angstrom)"))
            for z, p in zip(self.z, self.force_s):
                L.append(f" {z:3d}      {'      '.join(p)}")
        if self.vel_s:
            L.append("  Velocity (bohr/fs)")
            for z, p in zip(self.z, self.vel_s):
                L.append(f" {z:3d}      {'      '.join(p)}")
        if self.ea_s:
            L.append(f"  Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  {self.e_s[1]}")
            for z, p in zip(self.z, self.ea_s):
                L.append(f" {z:3d}   {'    '.join(p)}")
        if self.mag_s:
            L.append("  MAGNETIC" if self.t.get("upper") else "  Magnetic")
            for z, m in zip(self.z, self.mag_s):
                L.append(f" {z:3d}      {m}")
        L.append(" " + "-" * self.nsep)
        return "\n".join(L) + "\n"

    def key(self):
        return hashlib.sha256(self.text().encode()).hexdigest()[:12]


def frames(t):
    if t.get("rep"):                       # the same frame written again (a fixed structure, a restarted step)
        return [Frame(t, i - 1 if i and R("rep", t["s"], i).random() < .4 else i) for i in range(t["nf"])]
    return [Frame(t, i) for i in range(t["nf"])]


def movement(t):
    fr = frames(t)
    return "".join(f.text() for f in fr), fr


def pick_z(r, k):
    """k different atomic numbers, mostly common ones, also exotic ones."""
    return r.sample(COMMON if r.random() < .6 else ZS, k)


def gen_z(r, kinds=None, nmax=6):
    zs = kinds or pick_z(r, r.choice([1, 1, 2, 2, 3]))
    z = []
    for e in zs:
        n = r.randint(1, max(1, nmax // len(zs)))
        if nmax >= 5 and r.random() < .06:
            n = r.choice([9, 10, 11, 12, 21])          # two-digit counts
        z += [e] * n
    if r.random() < .3:
        r.shuffle(z)
    return z


def gen_traj(r, tag, z=None, nf=None, nmax=6):
    t = {"s": f"{tag}.{r.randrange(10**6)}", "z": z or gen_z(r, nmax=nmax), "nf": nf or r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, r.choice([8, 11, 13, 32])]),
         "virial": r.random() < .6, "eatom": r.random() < .5, "vel": r.random() < .3,
         "nsep": r.choice([91, 91, 60, 39])}
    if r.random() < .2:
        t["shuffle"] = True
    if r.random() < .2:
        t["wide"] = True
    if r.random() < .2:
        t["hdr2"] = True
    if r.random() < .25:
        t["fneg"] = True
    if r.random() < .35:
        t["vary"] = True              # optional sections differ between frames, as the first frame of a run has none
    if r.random() < .15:
        t["shuf_each"] = True
    if r.random() < .15:
        t["special"] = True
    if r.random() < .15:
        t["fixed"] = True             # some atoms may not move
    if r.random() < .2:
        t["mag"] = True
    if r.random() < .1:
        t["upper"] = True             # section titles in capitals
    if z is None and nf is None and nmax >= 5 and r.random() < .02:
        t["z"], t["nf"] = [t["z"][0]] * r.choice([60, 101]) + t["z"][1:], min(t["nf"], 3)
    return t


def shrink_traj(t):
    """Simpler trajectories."""
    if t["nf"] > 1:
        yield {**t, "nf": 1}
        yield {**t, "nf": t["nf"] - 1}
    if len(t["z"]) > 1:
        yield {**t, "z": t["z"][:1]}
        yield {**t, "z": t["z"][:-1]}
    for k in ("virial", "eatom", "mag", "vel", "shuffle", "shuf_each", "special", "rep", "vary", "wide", "hdr2", "fneg", "fixed", "upper"):
        if t.get(k):
            yield {**t, k: False}


# ------------------------------------------------------------------ atom.config
class AtomConfig:
    def __init__(self, p):
        """p: {"s", "z", "mag", "n"...}"""
        r = R("ac", p["s"])
        self.p = p
        self.z = list(p["z"])
        n = len(self.z)
        a = r.uniform(3, 14)
        self.box_s = [[f"{(a if i == j else r.uniform(-.4, .4)):.10f}" for j in range(3)] for i in range(3)]
        self.pos_s = [[f"{r.random():.15f}" for _ in range(3)] for _ in range(n)]
        self.mag_s = [f"{r.uniform(-5, 5):.4f}" for _ in range(n)] if p.get("mag") else None
        q = R("acx", p["s"])
        if p.get("wide"):                  # atoms outside the cell, exact zeros and ones
            self.pos_s = [[q.choice([x, x, f"{q.uniform(-.4, 1.4):.15f}", "0.000000000000000", "1.000000000000000"]) for x in row] for row in self.pos_s]
        self.move = [" ".join(q.choice(" 1 0".split()) for _ in range(3)) if p.get("fixed") else "1  1  1" for _ in range(n)]
        self.more = [[f"{q.uniform(-9, 9):.15f}" for _ in range(3)] for _ in range(2 * n)]

    def text(self):
        n = len(self.z)
        up = str.upper if self.p.get("upper") else str
        L = [f"  {n} atoms" if self.p.get("word", True) else f"          {n}", up("Lattice vector (Angstrom)")]
        for row in self.box_s:
            L.append("   " + "     ".join(row))
        L.append(up("Position (normalized), move_x, move_y, move_z"))
        for z, q, m in zip(self.z, self.pos_s, self.move):
            L.append(f"  {z:<3d}      {'      '.join(q)}     {m}")
        if self.p.get("more"):             # what a relaxation or an MD run leaves in its final structure
            L.append(up("Force (-force, eV/Angstrom)"))
            L += [f"  {z:<3d}      {'      '.join(q)}" for z, q in zip(self.z, self.more)]
            L.append(up("Velocity (bohr/fs)"))
            L += [f"  {z:<3d}      {'      '.join(q)}" for z, q in zip(self.z, self.more[n:])]
        if self.mag_s:
            L.append(up("Magnetic"))
            for z, m in zip(self.z, self.mag_s):
                L.append(f"  {z:<3d}   {m}")
        return "\n".join(L) + "\n"

    @property
    def box(self):
        return np.array([float(v) for row in self.box_s for v in row])

    @property
    def coords(self):
        return np.array([float(v) for row in self.pos_s for v in row])

    @property
    def mags(self):
        return [0.0] * len(self.z) if self.mag_s is None else [float(m) for m in self.mag_s]


def gen_ac(r, tag, z=None):
    p = {"s": f"{tag}.{r.randrange(10**6)}", "z": z or gen_z(r), "mag": r.random() < .5, "word": r.random() < .7}
    for k, q in (("wide", .2), ("fixed", .2), ("more", .2), ("upper", .15)):
        if r.random() < q:
            p[k] = True
    if z is None and r.random() < .02:
        p["z"] = p["z"] + [p["z"][0]] * r.choice([60, 101, 260])
    return p


def close(a, b, rtol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.maximum(np.abs(b), 1e-300)))
