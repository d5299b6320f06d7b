"""Peer processes: the same library in surroundings of its own (hash seed, clock,
process id, entropy, directory, environment, heap placement), executing the runs it
is sent in forked children."""
import ctypes
import os
import pickle
import struct
import subprocess
import sys
import tempfile

from . import boot

# hash seed, clock mode, start of time, process id, heap padding, contents of fresh
# memory, environment
KINDS = [
    {"hash": "0", "clock": 0, "start": 1600000000, "pid": 4242, "pad": 0, "fill": 0, "umask": 0o022, "env": {"TZ": "UTC", "LC_ALL": "C.UTF-8", "HOME": "/root", "USER": "root"}},
    {"hash": "1", "clock": 1, "start": 1600000000, "pid": 77, "pad": 3, "fill": 0xff, "umask": 0o077, "env": {"TZ": "Asia/Kolkata", "LC_ALL": "C", "HOME": "/nonexistent", "USER": "alice", "LANG": "de_DE.UTF-8", "PYTHONIOENCODING": "utf-8"}, "ambient": True},
    {"hash": "987654321", "clock": 2, "start": 951782399, "pid": 31999, "pad": 37, "fill": 0x41, "umask": 0o002, "env": {"TZ": "America/St_Johns", "LC_ALL": "POSIX", "HOME": "/tmp", "COLUMNS": "40", "TERM": "dumb", "PYTHONUTF8": "1"}, "ambient": True, "thread": True},
    {"hash": "4294967295", "clock": 1, "start": 2147483640, "pid": 2, "pad": 200, "fill": 0x01, "umask": 0, "env": {"TZ": "Pacific/Auckland", "LC_ALL": "C.UTF-8", "HOSTNAME": "node-b", "TMPDIR": "/tmp"}, "thread": True},
]
_simenv = None


def _no_aslr():
    try:
        libc = ctypes.CDLL(None)
        libc.personality(0x0040000)     # ADDR_NO_RANDOMIZE: addresses repeat from run to run
    except Exception:
        pass


class Peer:
    def __init__(self, k):
        from . import simalloc
        kind = KINDS[k]
        simalloc._build()
        lib = simalloc._build("simenv")
        self.dir = tempfile.mkdtemp(prefix=f"dstpeer{k}-")
        env = {x: v for x, v in os.environ.items() if x not in ("TZ", "LANG", "LC_ALL", "HOME", "USER", "COLUMNS", "TERM", "LD_PRELOAD", "DST_SIMFS")}
        env.update(kind["env"], PYTHONHASHSEED=kind["hash"], LD_PRELOAD=lib, PYTHONPATH=boot.VERIF, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "dst.peer", str(k)], cwd=self.dir, env=env, umask=kind["umask"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=None if os.environ.get("DST_DEBUG") else subprocess.DEVNULL,
                                  preexec_fn=_no_aslr)

    def call(self, *args):
        _send(self.p.stdin, args)
        return _recv(self.p.stdout)

    def close(self):
        import shutil
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def _send(f, v):
    b = pickle.dumps(v, 4)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError
    (n,) = struct.unpack("<Q", h)
    return pickle.loads(f.read(n))


def _ambient(k, seed):
    """What the caller's program may have set up for itself in its process."""
    import decimal
    import gc
    import random
    import warnings
    import matplotlib
    import numpy as np
    r = random.Random(seed)
    np.seterr(**{x: "warn" if k == 1 else r.choice(["ignore", "warn"]) for x in ("divide", "over", "under", "invalid")})
    np.set_printoptions(precision=r.choice([1, 3]), threshold=4, suppress=True, floatmode="fixed")
    warnings.simplefilter(r.choice(["always", "default", "once"]) if k > 1 else "always")
    gc.set_threshold(r.choice([1, 50]), 2, 2)
    sys.setrecursionlimit(r.choice([1500, 5000]))
    sys.setswitchinterval(1e-4)
    decimal.getcontext().prec = 3
    matplotlib.rcParams.update({"lines.linewidth": 3, "axes.grid": True, "axes.prop_cycle": matplotlib.cycler("color", ["r", "k"]), "savefig.dpi": 30})


def _in_thread(f, *a):
    import threading
    out = []

    def body():
        try:
            out.append((True, f(*a)))
        except BaseException as e:
            out.append((False, e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if not out[0][0]:
        raise out[0][1]
    return out[0][1]


def _segment(k, seed, ops, blob, opts, want_blob):
    """In the forked child: surroundings of this peer, then the run."""
    from . import runtime, simalloc
    kind = KINDS[k]
    simalloc.load()
    simalloc.fill(kind["fill"])
    _simenv.sim_env(ctypes.c_uint64(seed + k), kind["clock"], ctypes.c_int64(kind["start"]), ctypes.c_long(kind["pid"]))
    pad = [bytearray(777) for _ in range(kind["pad"])] + [object() for _ in range(kind["pad"])]

    def body():
        if kind.get("ambient"):
            _ambient(k, seed)
        return runtime.run_segment(ops, blob, opts, want_blob)
    res = _in_thread(body) if kind.get("thread") else body()
    _simenv.sim_env_off()
    res["env"] = [int(_simenv.sim_env_count(j)) for j in range(3)]
    del pad
    return res


def serve(k):
    global _simenv
    import gc
    from . import driver, forkrun
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(2, 1)
    boot.load()
    boot.warm_plots()
    _simenv = ctypes.CDLL(os.environ["LD_PRELOAD"])
    gc.collect()
    gc.freeze()
    while True:
        try:
            seed, ops, blob, opts, want = _recv(inp)
        except EOFError:
            return
        try:
            r = ("ok", forkrun.call(_segment, k, seed, ops, blob, opts, want, timeout=90))
        except forkrun.ChildFailure as e:
            r = ("failure", e.kind, e.detail)
        _send(out, r)


if __name__ == "__main__":
    serve(int(sys.argv[1]))
