"""Simulated Python user of the neighbour-list binding: a history of calls, results kept or
dropped in any order; then the memory each call leaves behind."""
import gc, json, sys
sys.path.insert(0, sys.argv[1])
import numpy as np
import nbmod
case = json.load(sys.stdin)


def args(c):
    return [np.array(c["lat"], np.float64), np.array(c["z"], np.int32), np.array(c["x"], np.float64), c["rc"], list(c["pbc"]), c["um"], c["sort"], c["cart"]]


def show(i, t):
    print(json.dumps([i, t[0], *[a.tolist() for a in t[1:6]], t[6], [str(a.dtype) for a in t[1:6]]]))


held, kept = {}, []
for s in case["steps"]:
    if s[0] == "call":
        a = args(case["calls"][s[2]])
        before = [x.tobytes() for x in a[:3]]
        held[s[1]] = nbmod.find_info4mlff(*a)
        if [x.tobytes() for x in a[:3]] != before:
            print(json.dumps("changed"))
        del a
    elif s[0] == "part":                     # one array outlives the tuple
        kept.append((s[1], s[2], held[s[1]][s[2]]))
        del held[s[1]]
        gc.collect()
    elif s[0] == "drop":
        del held[s[1]]
    else:
        show(s[1], held[s[1]])
for n, k, a in kept:
    print(json.dumps(["part", n, k, a.tolist()]))
held.clear(); kept.clear()
grow = []
for c in case["calls"]:
    a = args(c)
    m = []
    for r in range(4):
        gc.collect()
        sys._clear_type_cache()
        m.append(nbmod.live())
        for _ in range(8):
            nbmod.find_info4mlff(*a)
    refs = [sys.getrefcount(x) for x in a[:3]]
    grow.append([m[2][0] - m[1][0], m[3][0] - m[2][0], m[3][1] - m[2][1], refs])
print(json.dumps(["grow", grow]))
