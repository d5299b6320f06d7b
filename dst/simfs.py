"""Front end of the disk seam (simfs.c, preloaded into the workers): control, log
parser, fault selection and the model of what a power loss leaves behind."""
import ctypes
import errno
import os
import struct

CRASHED = 77 << 8
CAP = 96 << 20
MARK, OPEN, WRITE, FSYNC, CLOSE, RENAME, UNLINK, TRUNC, MKDIR, RMDIR, LINK, SYMLINK, DIRSYNC = range(1, 14)
NAMES = dict(enumerate("mark open write fsync close rename unlink truncate mkdir rmdir link symlink dirsync".split(), 1))
NONE, ERR, SHORT, BEFORE, AFTER, TORN, SHORTERR = range(7)
HDR = struct.Struct("<IIQQQqIIIIQ")
_lib = None
_base = None


def lib():
    global _lib, _base
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.simfs_shared.restype = ctypes.c_void_p
        _lib.simfs_shared.argtypes = [ctypes.c_uint64]
        _lib.simfs_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_double]
        _lib.simfs_mark.argtypes = [ctypes.c_char_p, ctypes.c_uint64]
        _lib.simfs_root.argtypes = [ctypes.c_char_p]
        _lib.simfs_count.restype = _lib.simfs_fired.restype = ctypes.c_long
        _base = _lib.simfs_shared(CAP)
        if not _base:
            raise RuntimeError("no shared memory for the disk seam")
    return _lib


def reset():
    lib().simfs_reset()


def root(path):
    lib().simfs_root(None if path is None else path.encode())


def arm(f=None):
    f = f or {}
    lib().simfs_arm(f.get("at", 0), f.get("k", 0), f.get("errno", 0), 1 if f.get("persist") else 0, f.get("frac", 0.5))


def disarm():
    """-> (operations seen, faults fired)"""
    r = int(lib().simfs_count()), int(lib().simfs_fired())
    lib().simfs_arm(0, 0, 0, 0, 0.5)
    return r


def mark(b):
    lib().simfs_mark(b, len(b))


def die():
    lib().simfs_die()


def log(start=0):
    """Parsed log entries from byte offset `start`."""
    n = struct.unpack("<Q", ctypes.string_at(_base, 8))[0]
    if n == 2 ** 64 - 1:
        raise RuntimeError("disk log overflow")
    buf = ctypes.string_at(_base + 8 + start, n - start)
    out, p = [], 0
    while p < len(buf):
        magic, t, idx, ino, off, ret, err, p1, p2, flags, dl = HDR.unpack_from(buf, p)
        if magic != 0x51F5:
            raise RuntimeError("disk log corrupt")
        p += HDR.size
        a, b, d = buf[p:p + p1], buf[p + p1:p + p1 + p2], buf[p + p1 + p2:p + p1 + p2 + dl]
        p += p1 + p2 + dl
        out.append({"t": t, "i": idx, "ino": ino, "off": off, "ret": ret, "err": err, "flags": flags,
                    "p": os.fsdecode(a), "q": os.fsdecode(b), "d": d})
    return out


def mark_pos():
    return struct.unpack("<Q", ctypes.string_at(_base, 8))[0]


def rewind(pos):
    ctypes.memmove(_base, struct.pack("<Q", pos), 8)


# ------------------------------------------------------------ fault choice ----
ERRS = {OPEN: [errno.ENOSPC, errno.EACCES, errno.EIO, errno.EMFILE, errno.EROFS], WRITE: [errno.ENOSPC, errno.EIO, errno.EDQUOT],
        FSYNC: [errno.EIO, errno.ENOSPC], DIRSYNC: [errno.EIO], CLOSE: [errno.EIO, errno.ENOSPC, errno.EDQUOT],
        RENAME: [errno.EIO, errno.ENOSPC, errno.EACCES], UNLINK: [errno.EIO, errno.EACCES]}


def choose(f, types):
    """Concrete fault from the abstract one {'how','u','v','w'} and the operation
    types (in order) of the reference execution."""
    n, how = len(types), f["how"]
    pick = lambda seq, x: seq[min(len(seq) - 1, int(x * len(seq)))]
    if how in ("crash", "power"):
        at = 1 + int(f["u"] * (n + 1))
        if at > n:
            return {"at": n + 1, "k": AFTER, "crash": True, "type": "return"}
        t = types[at - 1]
        k = pick([BEFORE, AFTER, TORN] if t == WRITE else [BEFORE, AFTER], f["v"])
        return {"at": at, "k": k, "frac": f["w"], "crash": True, "type": NAMES[t]}
    if not n:
        return {"at": 0}
    if how in ("short", "shorterr"):
        ws = [i + 1 for i, t in enumerate(types) if t == WRITE]
        if not ws:
            return {"at": 0}
        return {"at": pick(ws, f["u"]), "k": SHORT if how == "short" else SHORTERR, "frac": f["w"], "errno": errno.ENOSPC, "type": "write"}
    # one operation kind first, then one instance: rare kinds are hit as often as writes
    kinds = sorted(set(types))
    t = pick(kinds, f["v"])
    at = pick([i + 1 for i, x in enumerate(types) if x == t], f["u"])
    return {"at": at, "k": ERR, "errno": errno.ENOSPC if how == "full" else pick(ERRS.get(t, [errno.EIO, errno.ENOSPC]), f["w"]),
            "persist": how == "full", "type": NAMES[t]}


# -------------------------------------------------------------- power loss ----
def tree(top):
    """rel -> (inode, bytes) of the regular files below top."""
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            with open(p, "rb") as fh:
                out[os.path.relpath(p, top)] = (os.stat(p).st_ino, fh.read())
    return out


def _apply(buf, op):
    if op[0] == "t":
        n = op[1]
        return buf[:n] + b"\0" * (n - len(buf))
    off, d = op[1], op[2]
    if len(buf) < off:
        buf = buf + b"\0" * (off - len(buf))
    return buf[:off] + d + buf[off + len(d):]


def power_loss(top, before, entries, rng):
    """Replace the files below `top` by what the platter may hold: synced data plus
    any part of the unsynced writes, and any prefix of the unsynced directory
    operations.  `before` (from tree()) was durable."""
    data, pend, cur, names = {}, {}, {}, {}
    for r, (ino, b) in before.items():
        k = ("i", ino)
        data[k], pend[k], cur[ino], names[r] = b, [], k, k
    journal, done, gen = [], 0, 0
    for e in entries:
        if e["t"] == MARK or e["ret"] < 0:
            continue
        k = cur.get(e["ino"])
        if e["t"] == OPEN:
            if e["off"] == 0 or k is None:
                gen += 1
                k = cur[e["ino"]] = ("n", gen)
                data[k], pend[k] = b"", []
                journal.append(("c", e["p"], k))
            elif e["flags"] & os.O_TRUNC:
                pend[k].append(("t", 0))
        elif e["t"] == WRITE and k:
            pend[k].append(("w", e["off"], e["d"]))
        elif e["t"] == TRUNC and k:
            pend[k].append(("t", e["off"]))
        elif e["t"] == FSYNC and k:
            for op in pend[k]:
                data[k] = _apply(data[k], op)
            pend[k] = []
        elif e["t"] == DIRSYNC:
            done = len(journal)
        elif e["t"] == RENAME:
            journal.append(("r", e["p"], e["q"], k))
        elif e["t"] == LINK:
            journal.append(("c", e["q"], k))
        elif e["t"] == UNLINK:
            journal.append(("u", e["p"]))
    upto = rng.choice([len(journal), rng.randint(done, len(journal))])
    for j in journal[:upto]:
        if j[0] == "c":
            names[j[1]] = j[2]
        elif j[0] == "u":
            names.pop(j[1], None)
        else:
            k = names.pop(j[1], None)
            names[j[2]] = j[3] or k
    now = tree(top)
    lost = 0
    for k in sorted(pend, key=repr):
        ops = pend[k]
        mode = rng.choice(["none", "all", "prefix", "subset"])
        m = rng.randint(0, len(ops))
        for i, op in enumerate(ops):
            if mode == "none" or (mode == "prefix" and i > m) or (mode == "subset" and rng.random() < 0.5):
                lost += 1
                continue
            if mode == "prefix" and i == m and op[0] == "w":
                lost += 1
                op = ("w", op[1], op[2][:rng.randint(0, len(op[2])) // 512 * 512])
            data[k] = _apply(data[k], op)
    want = {r: data[k] for r, k in names.items() if k in data}
    for r in now:
        if r not in want:
            os.unlink(os.path.join(top, r))
    for r, b in want.items():
        if r not in now or now[r][1] != b:
            p = os.path.join(top, r)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(b)
    return {"unsynced_lost": lost, "metadata_lost": len(journal) - upto}
