"""Determinism of the simulator: every run of every check is executed twice, in
different worker processes, in another order, with another worker count and
another hash seed, and the complete outcome digests are compared.

usage: run.sh selftest [--runs N] [--seed S] [IDs...]"""
import json
import os
import subprocess
import sys

from . import boot, driver

ALL = ["C%02d" % i for i in range(1, 20)]


def collect(pid, base, n, nworkers, reverse):
    idx = list(range(n))
    if reverse:
        idx.reverse()
    P = driver.prop(pid)
    boot.env()
    driver.seams(P)
    res, wall = driver.batch(pid, base, "quick", idx, nworkers, 3000, stop_on_violation=False)
    return {str(i): [r.get("digest"), r.get("key"), bool(r.get("violation")), r.get("harness")] for i, r in res.items()}


def child(pid, base, n, nworkers, reverse, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TMPDIR=f"/tmp/dst-self-{os.getpid()}-{hashseed}")
    env.pop("LD_PRELOAD", None)
    os.makedirs(env["TMPDIR"], exist_ok=True)
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "dst.selftest", pid, str(base), str(n), str(nworkers), str(int(reverse))],
                           cwd=boot.VERIF, env=env, capture_output=True, text=True)
    finally:
        import shutil
        shutil.rmtree(env["TMPDIR"], ignore_errors=True)
    return json.loads(p.stdout.splitlines()[-1])


def main(argv):
    n, base, ids = 60, 7, []
    it = iter(argv)
    for a in it:
        if a == "--runs":
            n = int(next(it))
        elif a == "--seed":
            base = int(next(it))
        else:
            ids.append(a)
    bad = 0
    for pid in ids or ALL:
        a = child(pid, base, n, 8, False, 0)
        b = child(pid, base, n, 3, True, 12345)
        diff = [i for i in a if a[i] != b.get(i)]
        bad += bool(diff) or len(a) != n or len(b) != n
        print(f"{pid}: {n} runs twice, {len(diff)} differ" + (f": {[(i, a[i], b.get(i)) for i in diff[:3]]}" if diff else ""), flush=True)
    print("selftest " + ("FAILED" if bad else "OK"))
    return 1 if bad else 0


if __name__ == "__main__":
    pid, base, n, w, rev = sys.argv[1:6]
    print(json.dumps(collect(pid, int(base), int(n), int(w), rev == "1")))
