"""Choosing fault points from the operation counts of a fault-free probe run."""
WRITE_ERR = ["ENOSPC", "EIO", "EDQUOT", "EFBIG"]
OPENW_ERR = ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "ESTALE"]
MKDIR_ERR = ["ENOSPC", "EACCES", "EROFS", "EIO", "EDQUOT", "EMLINK"]
READ_ERR = ["EIO", "ESTALE", "EINVAL"]
OPENR_ERR = ["EACCES", "ENOENT", "EMFILE", "EIO", "ESTALE"]
CLOSE_ERR = ["EIO", "ENOSPC", "EDQUOT"]
OTHER_ERR = ["EIO", "EACCES", "EBUSY", "EPERM"]
ERR = {"write": WRITE_ERR, "open_w": OPENW_ERR, "mkdir": MKDIR_ERR, "read": READ_ERR, "open_r": OPENR_ERR,
       "close_w": CLOSE_ERR, "unlink": OTHER_ERR, "rmdir": OTHER_ERR, "rename": OTHER_ERR, "truncate": OTHER_ERR,
       "pool": ["EAGAIN", "ENOMEM", "EMFILE"], "scandir": ["EIO", "EACCES"], "fsync": ["EIO"], "link": OTHER_ERR, "symlink": OTHER_ERR}
MUTATE = ("write", "open_w", "close_w", "mkdir", "unlink", "rmdir", "rename", "truncate", "fsync", "link")
READS = ("open_r", "read")
FULL = ["write", "mkdir"]          # what a full disk breaks


def pick(r, counts, classes):
    """(class, n) uniformly over all operations of the given classes, or None."""
    items = [(c, counts[c]) for c in classes if counts.get(c)]
    # half the time weigh classes equally, so that rare ones are hit too
    if not items:
        return None
    if r.random() < .5:
        c, k = items[r.randrange(len(items))]
        return c, r.randint(1, k)
    x = r.randrange(sum(k for _, k in items))
    for c, k in items:
        if x < k:
            return c, x + 1
        x -= k


def hard(r, counts, classes=MUTATE):
    """A fault that must surface."""
    p = pick(r, counts, classes)
    if p is None:
        return None
    c, n = p
    if c == "write" and r.random() < .35:
        f = {"op": c, "n": n, "do": "partial", "frac": r.random()}
        if r.random() < .5:
            f["sticky"] = FULL
        return f
    f = {"op": c, "n": n, "do": "errno", "errno": r.choice(ERR[c])}
    if f["errno"] in ("ENOSPC", "EDQUOT") and r.random() < .5:
        f["sticky"] = FULL
    return f


def crash(r, counts, classes=None):
    p = pick(r, counts, classes or tuple(counts))
    if p is None:
        return None
    c, n = p
    if c == "write" and r.random() < .6:
        return {"op": c, "n": n, "do": "torn", "frac": r.random()}
    return {"op": c, "n": n, "do": "crash"}


def benign(r, counts):
    p = pick(r, counts, ("write", "read"))
    if p is None:
        return None
    return {"op": p[0], "n": p[1], "do": "short", "frac": r.choice([.01, .3, .7])}


def is_hard(f):
    return f["do"] in ("errno", "partial", "exc")
