import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import errno, glob, re, subprocess
from sim import driver
from sim.core import HarnessError, Violation

TDIR = "source/descriptor/mtpr/MTP_templates"
ERRS = ["EIO", "ESTALE", "EISDIR", "EAGAIN", "ENXIO", "EBADF"]


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def parse(text):
    """Independent reading of an intact template."""
    m = re.search(r"alpha_moments_count = (\d+)\nalpha_index_basic_count = (\d+)\nalpha_index_basic = (.*)\nalpha_index_times_count = (\d+)\n"
                  r"alpha_index_times = (.*)\nalpha_scalar_moments = (\d+)\nalpha_moment_mapping = (.*)", text)
    am, nb, b, nt, t, ns, mp = m.groups()
    b, t, mp = (re.findall(r"-?\d+", x) for x in (b, t, mp))
    if len(b) != 4 * int(nb) or len(t) != 4 * int(nt) or len(mp) != int(ns):
        raise HarnessError("template reference")
    body = "|" + "".join(" " + x for x in b) + " |" + "".join(" " + x for x in t) + " |" + "".join(" " + x for x in mp)
    head = f"{am} {nb} {nt} {ns} "
    if len("loaded " + head + body) > 4000:
        h = 1469598103934665603
        for c in body.encode():
            h = ((h ^ c) * 1099511628211) % 2**64
        return head + f"# {h}", head + body
    return head + body, head + body


def make(p):
    """A generated template of the same format."""
    import random
    r = random.Random(p)
    nb, nt, ns = r.choice([1, 2, 5, 14, 40]), r.choice([0, 1, 3, 20, 60]), r.choice([1, 2, 4, 9, 30])
    big = r.choice([9, 99, 99999])
    row = lambda: "{" + ", ".join(str(r.randint(0, big)) for _ in range(4)) + "}"
    return ("MTP\nversion = 1.1.0\npotential_name = MTP1m\nspecies_count = %d\npotential_tag = %s\nradial_basis_type = RBChebyshev\n"
            "\tmin_dist = 2\n\tmax_dist = 5\n\tradial_basis_size = 8\n\tradial_funcs_count = 2\n" % (r.randint(1, 4), "x" * r.choice([0, 0, 30]))
            + f"alpha_moments_count = {r.randint(1, 10**r.randint(1, 5))}\nalpha_index_basic_count = {nb}\nalpha_index_basic = {{" + ", ".join(row() for _ in range(nb))
            + f"}}\nalpha_index_times_count = {nt}\nalpha_index_times = {{" + ", ".join(row() for _ in range(nt))
            + f"}}\nalpha_scalar_moments = {ns}\nalpha_moment_mapping = {{" + ", ".join(str(r.randint(0, big)) for _ in range(ns)) + "}\n")


class C16(driver.Check):
    id = "C16"
    technique = "deterministic simulation: template loads over a faulty, truncated or still growing file, and copy/move histories, under sanitizers"
    real = ["source/descriptor/mtpr/src (compiled from the working tree, ASan+UBSan)", "libstdc++ streams", "real files in scratch"]
    stub = ["read() of the template file (errors, short reads, a concurrent copier between two reads)"]
    rule = ("a case is one simulated process: loads of shipped or generated templates that are intact, cut at any byte, being copied meanwhile or "
            "failing at any read, interleaved with copies, moves, assignments and destructions; non-trivial when a fault or cut took effect or an object "
            "was copied or moved; distinct by (workload, operation-log digest)")
    assumptions = ["memory allocation succeeds", "the loader reads through read()/readv() (libstdc++ file buffers)"]
    quick = (900, 6)
    thorough = (16000, 12)

    @staticmethod
    def prepare(d):
        r = os.path.join(repo(), "source/descriptor/mtpr")
        src = sorted(glob.glob(r + "/src/*.cc") + glob.glob(r + "/src/*.cpp"))
        cmd = ["g++", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + r, "-I" + r + "/include",
               os.path.join(driver.VERIF, "native/mtp.cc"), *src, "-o", os.path.join(d, "mtp")]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise HarnessError("the template reader does not compile:\n" + p.stdout[-2000:])

    def setup(self):
        self.exe = os.path.join(os.environ["VERIF_PREP"], "mtp")
        self.files = {}
        for f in sorted(glob.glob(os.path.join(repo(), TDIR, "*.almtp"))):
            self.files[os.path.basename(f)] = open(f).read()
        self.small = [k for k, v in self.files.items() if len(v) < 60000]
        self.mid = [k for k, v in self.files.items() if 60000 <= len(v) < 800000]
        self.ref = {}

    def text(self, t):
        if isinstance(t, int):
            return make(t)
        return self.files[t]

    def want(self, t):
        if t is None:
            return "0 0 0 0 | | |", ""
        if t not in self.ref:
            if len(self.ref) > 40:
                self.ref.clear()
            self.ref[t] = parse(self.text(t))
        return self.ref[t]

    def gen(self, r, j):
        steps, full, n = [], set(), r.choice([1, 2, 4, 7, 10])
        for i in range(n):
            ops = ["load"] * 3 + ["new"] * (i > 0)
            if full:
                ops += ["copyctor", "movector", "copyassign", "copyassign", "moveassign", "moveassign", "drop", "dump", "self", "selfmove"]
            c = r.choice(ops)
            if c == "load":
                t = r.choice(self.small) if r.random() < .45 else r.randrange(10**9)
                if r.random() < .04 and self.mid:
                    t = r.choice(self.mid)
                s = {"c": c, "a": r.randrange(6), "t": t, "cut": None, "copy": None, "faults": [], "missing": r.random() < .05}
                full.add(s["a"])
                steps.append(s)
            elif c in ("self", "selfmove"):
                a = r.choice(sorted(full))
                steps.append({"c": "copyassign" if c == "self" else "moveassign", "a": a, "b": a})
            elif c in ("drop", "dump"):
                a = r.choice(sorted(full))
                steps.append({"c": c, "a": a})
                if c == "drop":
                    full.discard(a)
            elif c == "new":
                a = r.randrange(6)
                full.add(a)
                steps.append({"c": c, "a": a})
            else:
                b = r.choice(sorted(full))
                a = r.choice([x for x in range(6) if x != b])
                if c in ("copyassign", "moveassign") and a not in full:
                    steps.append({"c": "new", "a": a})
                full.add(a)
                steps.append({"c": c, "a": a, "b": b})
        if all(s["c"] != "load" for s in steps):
            steps.insert(0, {"c": "load", "a": 0, "t": r.choice(self.small), "cut": None, "copy": None, "faults": [], "missing": False})
        return {"steps": steps, "opts": {}}

    def plan(self, r, case, info, k):
        case["seed"] = f"{case['seed']}+{k}"
        for s in case["steps"]:
            if s["c"] != "load" or r.random() < .25:
                continue
            n = len(self.text(s["t"]))
            blocks = n // 8191 + 2
            x = r.random()
            if x < .5:
                s["cut"] = self._at(r, self.text(s["t"]))
            elif x < .75:
                a = self._at(r, self.text(s["t"]))
                s["copy"] = sorted({a} | {r.randrange(n + 1) for _ in range(r.randint(0, 3))})
                for _ in range(r.randint(1, 3)):
                    s["faults"].append([r.randint(1, blocks + 1), "append", r.randint(1, 3)])
            if r.random() < .5:
                s["faults"].append([r.randint(1, blocks), "err", getattr(errno, r.choice(ERRS))])
            if r.random() < .5:
                for _ in range(r.randint(1, 5)):
                    s["faults"].append([r.randint(1, blocks + 2), "short", r.choice([1, 7, 100, 1000, n // 2 + 1])])
        return case

    @staticmethod
    def _at(r, text):
        n = len(text)
        x = r.random()
        if x < .3:
            return r.randrange(n)
        if x < .6:                                   # near the end of the tables, where little is left to miss
            return n - 1 - min(n - 1, int(abs(r.gauss(0, 1)) * 6))
        k = text.find(r.choice(["alpha_moments", "alpha_index_basic_c", "alpha_index_basic =", "alpha_index_times_c", "alpha_index_times =",
                                "alpha_scalar", "alpha_moment_mapping"]))
        return max(0, min(n - 1, k + r.randint(-3, 60)))

    def run(self, sim, case):
        return {"states": self._exec(sim, case)}

    def _exec(self, sim, case):
        """Runs the process; since a load may throw, the script is completed in rounds: each
        round re-executes the whole history with the steps that are void removed."""
        steps = case["steps"]
        thrown = set()
        for _ in range(len(steps) + 2):
            script, outs = [], []
            held = {}
            for i, s in enumerate(steps):
                c = s["c"]
                if c == "load":
                    script += self._load(sim, i, s)
                    outs.append(("load", i))
                    if i not in thrown:
                        held[s["a"]] = s["t"]
                elif c == "new":
                    script.append(f"new {s['a']}")
                    held[s["a"]] = None
                elif c == "drop":
                    if s["a"] in held:
                        script.append(f"drop {s['a']}")
                        del held[s["a"]]
                elif c == "dump":
                    if held.get(s["a"], "moved") != "moved":
                        script.append(f"dump {s['a']}")
                        outs.append(("dump", i, s["a"], held[s["a"]]))
                else:
                    a, b = s["a"], s["b"]
                    if b not in held or (c.endswith("assign") and a not in held):
                        continue
                    if held[b] == "moved" and a != b:
                        continue
                    if c == "moveassign" and a == b:
                        continue                     # self-move leaves an unspecified value
                    script.append(f"{c} {a} {b}")
                    v = held[b]
                    if c.startswith("move"):
                        held[b] = "moved"
                    held[a] = v
                    if v != "moved":
                        script.append(f"dump {a}")
                        outs.append(("dump", i, a, v))
                    if c.startswith("copy") and v != "moved":
                        script.append(f"dump {b}")
                        outs.append(("dump", i, b, v))
            for a, v in sorted(held.items()):
                if v != "moved":
                    script.append(f"dump {a}")
                    outs.append(("dump", "end", a, v))
            env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:allocator_may_return_null=1", "PATH": "/usr/bin:/bin"}
            try:
                p = subprocess.run([self.exe], input="\n".join(script) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=60)
            except subprocess.TimeoutExpired:
                raise Violation("hang", "the process does not end")
            lines = p.stdout.splitlines()
            io = [l for l in lines if l.startswith("io ")]
            res = [l for l in lines if not l.startswith("io ")]
            now = set()
            k = 0
            for o in outs:
                if k >= len(res):
                    break
                if o[0] == "load" and res[k].startswith("thrown"):
                    now.add(o[1])
                k += 1
            if p.returncode and now <= thrown:
                break
            if now == thrown:
                break
            thrown = now if not p.returncode else thrown | now
        sim.log += script if len("".join(script)) < 20000 else script[:200]
        sim.log[:] = [l.replace(sim.root, "<root>") for l in sim.log]
        sim.log += lines
        if any(s["c"] == "load" and s["cut"] is not None for s in steps):
            sim.injected["truncated-file"] += 1
        if any(s["c"] == "load" and s["missing"] for s in steps):
            sim.injected["missing-file"] += 1
        for l in io:
            if not l.startswith("io read"):
                sim.injected[l.split()[1] if l.split()[1] != "err" else "read-error"] += 1
            sim.opcount["read"] += 1
        sim.advance(len(io) * sim.step_ns)
        if p.returncode:
            e = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*)", p.stderr)
            raise Violation("process-death", f"status {p.returncode}: {e.group(1) if e else p.stderr[-200:]}; steps {[(s['c'], s['a'], s.get('b'), s.get('cut')) for s in steps]}"[:500])
        if len(res) != len(outs):
            raise Violation("outputs", f"{len(res)} outputs for {len(outs)} steps: {[l[:60] for l in res if l.startswith('wrongref')]}")
        st = set()
        for o, l in zip(outs, res):
            if o[0] == "load":
                s = steps[o[1]]
                w = self.want(s["t"])[0]
                if l.startswith("thrown"):
                    st.add("thrown")
                    hurt = s["missing"] or s["cut"] is not None or s["copy"] or any(f[1] == "err" for f in s["faults"])
                    if not hurt:
                        raise Violation("rejected", f"step {o[1]}: the intact template {s['t']} is rejected")
                else:
                    st.add("loaded" if s["cut"] is None and not s["copy"] else "loaded-damaged")
                    if s["missing"] or l != "loaded " + w:
                        raise Violation("wrong-tables", f"step {o[1]}: template {s['t']} cut {s['cut']} copy {s['copy']} faults {s['faults']} missing {s['missing']} loads tables that differ: "
                                        f"{l[:100]} instead of {w[:100]}")
            else:
                w = self.want(o[3])[0]
                if l != "table " + w:
                    raise Violation("copy", f"step {o[1]} ({steps[o[1]]['c'] if o[1] != 'end' else 'end'}): slot {o[2]} holds {l[:120]} instead of {w[:120]}")
        return sorted(st)

    def _load(self, sim, i, s):
        t = self.text(s["t"])
        path = sim.path(f"t{i}.almtp")
        data = t[:s["cut"]] if s["cut"] is not None else t[:s["copy"][0]] if s["copy"] else t
        if s["missing"]:
            if os.path.exists(path):
                os.unlink(path)
        else:
            sim.write(f"t{i}.almtp", data)
        out = [f"target {path}"]
        if s["copy"] and not s["missing"]:
            src = sim.write(f"src{i}", t)
            cp = s["copy"] + [len(t)]
            out += [f"piece {a} {b - a} {src}" for a, b in zip(cp, cp[1:])]
        out += [f"fault {n} {act} {arg}" for n, act, arg in s["faults"]]
        return out + [f"load {s['a']}"]

    def nontrivial(self, case, info):
        return bool(info["injected"]) or any(s["c"] != "load" for s in case["steps"])

    def shrink(self, case):
        st = case["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**case, "steps": st[:i] + st[i + 1:]}
        for i, s in enumerate(st):
            if s["c"] != "load":
                continue
            for k, z in (("faults", []), ("cut", None), ("copy", None), ("missing", False)):
                if s[k]:
                    yield {**case, "steps": st[:i] + [{**s, k: z}] + st[i + 1:]}
            for f in range(len(s["faults"])):
                yield {**case, "steps": st[:i] + [{**s, "faults": s["faults"][:f] + s["faults"][f + 1:]}] + st[i + 1:]}


if __name__ == "__main__":
    driver.main(C16)
