"""C09: saving a noise object is durable once acknowledged and otherwise harmless."""
import hashlib
import json
import os
import pickle
import random
import shutil
import tempfile
from collections import Counter

from .. import compare, forkrun, mon, runtime, simfs
from ..models import maybe, pick
from ..models_noise import M_NOISE
from .c02 import fault

ID = "C09"
DISK = True
RUNS = {"quick": 900, "thorough": 30000}
RULE = ("Seeded histories of one to three noise objects (calculations, slope removals, saves into two directories, loads) with disk "
        "errors, full disk, short and torn writes, process crashes and power losses at seeded file system operations, memory "
        "exhaustion and interrupts during saves; after every step and every recovery the directories are compared with a reference "
        "map of admissible versions. Non-trivial: at least one save of an existing object.")
STUBS = ("libc file calls below the scratch root (preloaded seam over the real file system, with operation log and power-loss model); "
         "numpy data allocator; line events")
ASSUMPTIONS = ["A process crash keeps every completed file system call; a power loss keeps synced data, any part of unsynced writes "
               "(in 512 byte units) and any prefix of directory operations.",
               "Sampling: absence of a violation in the explored runs is evidence, not proof."]
NAMES = ["noise run 1", "noise_run_1", "n", "x.y", "a b  c"]
DIRS = ["d0", "d1", "cwd"]
CRASH = ("crash", "power")


# ---------------------------------------------------------------- workload ----
def disk(rng):
    how = pick(rng, ["error", "error", "error", "full", "short", "shorterr", "crash", "crash", "crash", "power", "power", "power"])
    return {"kind": "disk", "how": how, "u": rng.random(), "v": rng.random(), "w": rng.random()}


def save(rng, o, faulty):
    op = {"o": o, "m": "@save", "dir": pick(rng, ["d0", "d0", "d0/", "d1", "cwd:.", "cwd:../d0", "d0/../d1/"])}
    if maybe(rng, 0.03):
        op["dir"], op["bad"] = pick(rng, ["none", "none/x/"]), True
    if maybe(rng, faulty):
        r = rng.random()
        op["fault"] = disk(rng) if r < 0.85 else fault(rng, "interrupt") if r < 0.95 else fault(rng, "alloc")
    return op


def gen(rng, i, tier):
    objs = {}
    for k in range(pick(rng, [1, 1, 2, 2, 3])):
        me = M_NOISE.meta(rng)
        me["name"] = pick(rng, NAMES)
        if maybe(rng, 0.3):     # pickles larger than the file buffers
            me["shape"] = [8, me["shape"][1], pick(rng, [512, 1024])]
        objs[f"n{k}"] = me
    names = list(objs)
    length = pick(rng, [10, 14, 18]) if tier == "quick" else pick(rng, [12, 24, 40])
    faulty = pick(rng, [0.3, 0.6, 0.9])
    ops, made = [], set()
    while len(ops) < length:
        o = pick(rng, names)
        me = objs[o]
        if o not in made:
            made.add(o)
            ops.append(M_NOISE.ctor(rng, me, o))
            continue
        r = rng.random()
        if r < 0.35:
            ops.append(M_NOISE.calc(rng, me, o))
        elif r < 0.42:
            ops.append({"o": o, "m": "remove_trace_slope", "a": {}})
        elif r < 0.47:
            ops.append({"o": o, "m": "@load", "dir": pick(rng, ["d0", "d1"])})
        else:
            op = save(rng, o, faulty)
            ops.append(op)
            fa = op.get("fault") or {}
            if fa.get("how") in CRASH:
                for x in sorted(made):
                    q = rng.random()
                    if q < 0.45:
                        ops.append(dict(M_NOISE.ctor(rng, objs[x], x), unless=True))
                    elif q < 0.9:
                        ops.append({"o": x, "m": "@load", "dir": op["dir"] if x == o else pick(rng, ["d0", "d1"])})
                        ops.append(dict(M_NOISE.ctor(rng, objs[x], x), unless=True))
                    else:
                        made.discard(x)
                if o in made and maybe(rng, 0.7):
                    ops.append({"o": o, "m": "@save", "dir": op["dir"], **({"bad": True} if op.get("bad") else {})})
            elif fa and maybe(rng, 0.6):
                ops.append({"o": o, "m": "@save", "dir": op["dir"], **({"bad": True} if op.get("bad") else {})})
    return {"ops": ops, "files": sorted(rng.sample(["d0/n.pkl.bak", "d0/notes.txt", "d1/n.txt", "d0/other.dat", "d0/sub/x.bin", "d1/old_n.pkl~"], 4)),
            "seed2": rng.randrange(1 << 30)}


def nontrivial(spec, res):
    return res["stats"].get("op:@save", 0) > 0


# --------------------------------------------------------------- execution ----
def where(root, d):
    """-> (argument given to save, directory relative to the root)"""
    arg = d[4:] if d.startswith("cwd:") else os.path.join(root, d)
    absd = os.path.normpath(os.path.join(root, "cwd", arg))
    return arg, os.path.relpath(absd, root)


def target(root, d, obj):
    return os.path.join(where(root, d)[1], obj.name.replace(" ", "_") + ".pkl")


def _dig(obj):
    return compare.digest(compare.snap(obj.__dict__))


def scan(root, bystanders):
    out = {}
    for r, (_, b) in sorted(simfs.tree(root).items()):
        if r in bystanders or not r.endswith(".pkl"):
            out[r] = "raw:" + hashlib.sha256(b).hexdigest()[:16]
            continue
        try:
            out[r] = _dig(pickle.loads(b))
        except BaseException as e:
            out[r] = f"unloadable ({type(e).__name__}, {len(b)} bytes)"
    return out


def child(ops, root, bystanders, armed, count):
    """One process life: executes ops, reports through marks in the disk log."""
    simfs.lib()
    os.chdir(os.path.join(root, "cwd"))
    os.environ["TMPDIR"] = os.path.join(root, "tmp")
    tempfile.tempdir = None
    simfs.root(root)
    s = runtime.Session()
    mon.MON.start("line")

    def say(**k):
        simfs.mark(json.dumps(k).encode())

    for i, op in enumerate(ops):
        m = op["m"]
        if m == "@load":
            t = os.path.join(where(root, op["dir"])[1], op["name"].replace(" ", "_") + ".pkl")
            p = os.path.join(root, t)
            if not os.path.exists(p):
                say(i=i, ev="noload")
                continue
            try:
                with open(p, "rb") as fh:
                    obj = pickle.load(fh)
                d = _dig(obj)
            except BaseException as e:
                say(i=i, ev="load", t=t, d=f"unloadable ({type(e).__name__})")
                continue
            s.objs[op["o"]] = obj
            say(i=i, ev="load", t=t, d=d)
        elif m == "@save":
            obj = s.objs.get(op["o"])
            if obj is None:
                say(i=i, ev="skip")
                continue
            pre = _dig(obj)
            t = target(root, op["dir"], obj)
            arg = where(root, op["dir"])[0]
            fa = armed[i] if armed else None
            o2 = {"m": "@call", "o": op["o"]}
            dk = fa if fa and fa.get("kind") == "disk" else None
            if fa and not dk:
                o2["fault"] = fa
            say(i=i, ev="begin", t=t, d=pre)
            simfs.arm(dk)
            out = s._wrap(o2, lambda: obj.save(arg), count)
            nops, fired = simfs.disarm()
            if dk and dk.get("crash"):
                say(i=i, ev="end", s=out["s"], fired=1, crashed=True)
                simfs.die()
            fired += runtime_fired(out)
            same = _dig(obj) == pre
            say(i=i, ev="end", s=out["s"], e=f"{out.get('t')}: {out.get('msg')}"[:120], fired=fired, same=same,
                alloc=out.get("alloc"), lines=out.get("lines"), sites=out.get("sites") if count else None)
            say(i=i, ev="dir", f=scan(root, bystanders))
        else:
            if op.get("unless") and op["o"] in s.objs:
                continue
            s.step(op)
    mon.MON.stop()
    return mon.MON.events


def runtime_fired(out):
    return (out.get("alloc") or (0, 0))[1] + (out.get("lines") or (0, 0))[1]


def life(ops, root, bystanders, armed=None, count=False):
    """-> (died, log entries, marks)"""
    simfs.reset()
    died = False
    ev = 0
    try:
        ev = forkrun.call(child, ops, root, bystanders, armed, count)
    except forkrun.ChildFailure as e:
        if e.kind != "died" or e.status != simfs.CRASHED:
            raise
        died = True
    lg = simfs.log()
    return died, lg, [json.loads(e["d"]) for e in lg if e["t"] == simfs.MARK], ev


def _nominal(ops, root, bystanders, keep):
    """Reference life on a copy of the disk: operation types and event counts per save."""
    ref = tempfile.mkdtemp(prefix="dstref-")
    try:
        shutil.rmtree(ref)
        shutil.copytree(root, ref)
        died, lg, marks, _ = life([{k: v for k, v in op.items() if k != "fault"} for op in ops], ref, bystanders, None, True)
        types, cur, ends = {}, None, {}
        for e in lg:
            if e["t"] == simfs.MARK:
                d = json.loads(e["d"])
                if d["ev"] == "begin":
                    cur = d["i"]
                    types[cur] = []
                elif d["ev"] == "end":
                    ends[d["i"]] = d
                    cur = None
            elif cur is not None:
                types[cur].append(e["t"])
        return types, ends
    finally:
        shutil.rmtree(ref, ignore_errors=True)


def _resolve(ops, types, ends):
    from ..engine import _site
    armed = {}
    for i, op in enumerate(ops):
        fa = op.get("fault")
        if not fa or op["m"] != "@save" or i not in ends:
            armed[i] = None
        elif fa["kind"] == "disk":
            armed[i] = dict(simfs.choose(fa, types[i]), kind="disk")
        else:
            armed[i] = dict(fa, at=_site(fa, ends[i]))
    return armed


class Model:
    """Reference map: admissible versions of every saved file."""

    def __init__(self, by):
        self.by = by                # bystanders rel -> raw digest
        self.cur, self.dur = {}, {}     # rel -> set of digests (None = absent)

    def adm(self, r, power=False):
        return (self.dur if power else self.cur).get(r, {None})

    def add(self, r, d):
        self.cur[r] = self.adm(r) | {d}
        self.dur[r] = self.adm(r, True) | {d}

    def acked(self, r, d):
        self.cur[r] = {d}
        self.dur[r] = self.adm(r, True) | {d}

    def see(self, files, power=False):
        """Check a directory scan -> problem or None; narrows the belief."""
        for r, d in self.by.items():
            if files.get(r) != d:
                return "bystander", f"file {r}, which is not the object's, " + ("is gone" if r not in files else "was changed")
        for r in sorted(set(self.cur) | set(files)):
            if r in self.by or not r.endswith(".pkl"):
                continue
            adm, got = self.adm(r, power), files.get(r)
            if r not in self.cur:
                return "stray-file", f"{r} appeared, which no save was asked to write"
            if got not in adm:
                if got is None:
                    return "lost", f"{r} is gone although a complete version existed"
                if got.startswith("unloadable"):
                    return "corrupt", f"{r} is {got}"
                return "wrong-version", f"{r} holds neither the previous nor the new version"
            self.cur[r] = {got}
            if power:
                self.dur[r] = {got}
        return None


def run(spec):
    ops = [dict(o) for o in spec["ops"]]
    nm = {o["o"]: o["a"]["name"] for o in ops if o["m"] == "@new"}
    ops = [dict(o, name=nm.get(o["o"], "n")) if o["m"] == "@load" else o for o in ops]
    segs, cur = [], []
    for k, op in enumerate(ops):
        cur.append((k, op))
        if (op.get("fault") or {}).get("how") in CRASH:
            segs.append(cur)
            cur = []
    segs.append(cur)
    root = tempfile.mkdtemp(prefix="dstfs-")
    st, history, viol = Counter(), [], None
    prnd = random.Random(spec["seed2"])
    try:
        for d in DIRS + ["tmp"]:
            os.makedirs(os.path.join(root, d))
        rnd = random.Random(spec["seed2"])
        for f in spec["files"]:
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(rnd.randbytes(rnd.choice([0, 10, 3000])))
        by = {r: "raw:" + hashlib.sha256(b).hexdigest()[:16] for r, (_, b) in simfs.tree(root).items()}
        M = Model(by)
        for seg in segs:
            if not seg:
                continue
            viol = _segment(seg, root, by, M, st, history, prnd)
            if viol:
                break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return {"violation": viol, "stats": dict(st), "digest": compare.digest(history), "sig": compare.digest(history)}


def _segment(seg, root, by, M, st, history, prnd):
    idx = [k for k, _ in seg]
    ops = [o for _, o in seg]
    bys = sorted(by)
    types, ends = _nominal(ops, root, bys, None)
    armed = _resolve(ops, types, ends)
    before = simfs.tree(root)
    died, lg, marks, ev = life(ops, root, bys, armed)
    st["events"] += sum(1 for e in lg if e["t"] != simfs.MARK) + ev
    st["disk_ops"] += sum(1 for e in lg if e["t"] != simfs.MARK)

    def v(cls, i, detail, f):
        return {"class": cls, "op": idx[i], "what": "Noise.save", "detail": detail, "during_fault": bool(f)}

    open_ = None
    for op in ops:
        st["ops"] += 1
        st["op:" + (op["cls"] if op["m"] == "@new" else op["m"])] += 1
    for m in marks:
        i, e = m["i"], m["ev"]
        op = ops[i]
        history.append([idx[i], e, m.get("d"), m.get("t"), m.get("s"), m.get("f"), m.get("fired")])
        if e == "begin":
            M.add(m["t"], m["d"])
            open_ = m
            fa = armed[i]
            if fa and fa.get("at"):
                st["armed:" + _kind(fa, op)] += 1
        elif e == "end":
            fa = armed[i]
            if m["fired"] and fa and not m.get("crashed"):
                st["fired:" + _kind(fa, op)] += 1
                st["outcome:" + ("survived" if m["s"] == "ok" else "failed")] += 1
            if m["s"] == "ok":
                M.acked(open_["t"], open_["d"])
            elif not m["fired"] and not op.get("bad"):
                return v("save-failed", i, f"save raised {m['e']} although nothing failed", 0)
            if m["s"] != "ok" and op.get("bad"):
                st["rejected"] += 1
            if not m.get("crashed") and not m["same"]:
                return v("object-changed", i, "the object in memory is different after save", m["fired"])
            last = m
            open_ = None
        elif e == "dir":
            p = M.see(m["f"])
            if p:
                how = "returned normally" if last["s"] == "ok" else "failed"
                return v(p[0], i, f"after save {how}: {p[1]}", last["fired"])
        elif e == "load":
            if m["t"] in M.cur and m["d"] not in M.cur[m["t"]]:
                return v("corrupt" if m["d"].startswith("unload") else "wrong-version", i, f"loading {m['t']} in a new process gives {m['d']}", 0)
    if died:
        i = marks[-1]["i"]
        fa = armed[i]
        st["restarts"] += 1
        st["fired:" + _kind(fa, ops[i])] += 1
        power = ops[i]["fault"]["how"] == "power"
        if power:
            r = simfs.power_loss(root, before, lg, prnd)
            for k, n in r.items():
                st["probe:" + k] += n
        # left-over temporary files become part of the world
        where_ = f"{'power loss' if power else 'crash'} {'after' if fa.get('k') == simfs.AFTER else 'in' if fa.get('k') == simfs.TORN else 'before'} {fa.get('type')} #{fa.get('at')}"
        p = M.see(forkrun.call(scan, root, bys), power)
        history.append([where_, sorted(simfs.tree(root))])
        if p:
            return v(p[0], i, f"after {where_}: {p[1]}", 1)
    elif any((o.get("fault") or {}).get("how") in CRASH for o in ops) and ends and (len(ops) - 1) in ends and marks and marks[-1]["ev"] != "skip":
        raise RuntimeError("crash did not happen")
    else:
        p = M.see(forkrun.call(scan, root, bys))
        if p:
            return v(p[0], len(ops) - 1, f"at the end of the process: {p[1]}", 0)
    return None


def _kind(fa, op):
    if fa["kind"] != "disk":
        return fa["kind"]
    h = op["fault"]["how"]
    return {"crash": "crash", "power": "power loss", "error": "I/O error", "full": "disk full", "short": "short write",
            "shorterr": "short write, then disk full"}[h] + (" @ " + fa.get("type", "?") if h in ("crash", "power", "error") else "")
