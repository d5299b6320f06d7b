"""Run a function in a forked child of a pristine process."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import boot


class ChildFailure(Exception):
    """The child did not deliver a result (harness problem, not a verdict)."""

    def __init__(self, kind, detail="", status=None):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.status = status
        self.detail = detail


def call(fn, *args, timeout=120.0):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ("ok", fn(*args))
                if boot.COV:
                    boot.cov_flush()
                blob = pickle.dumps(res, protocol=4)
            except BaseException:
                blob = pickle.dumps(("err", traceback.format_exc()), protocol=4)
            blob = struct.pack("<Q", len(blob)) + blob
            mv = memoryview(blob)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    status = None
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise ChildFailure("timeout", f"{timeout}s")
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if len(buf) < 8:
        raise ChildFailure("died", f"wait status {status}", status)
    (n,) = struct.unpack("<Q", bytes(buf[:8]))
    if len(buf) != 8 + n:
        raise ChildFailure("died", f"short result, wait status {status}")
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == "err":
        raise ChildFailure("harness-exception", val)
    return val
