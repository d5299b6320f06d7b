"""Batch driver: seeded runs over a worker pool, minimisation, replay files,
evidence, known findings."""
import copy
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import sys
import time
from collections import Counter

from . import boot

LEVEL = "exploration"
REPLAYS = os.path.join(boot.VERIF, "replays")


def prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def run_seed(pid, base, i):
    return int.from_bytes(hashlib.sha256(f"{pid}:{base}:{i}".encode()).digest()[:8], "big")


def make_spec(P, base, i, tier):
    s = run_seed(P.ID, base, i)
    rng = random.Random(s)
    spec = P.gen(rng, i, tier)
    spec["prop"], spec["run"], spec["seed"] = P.ID, i, s
    return spec


def execute(P, spec):
    if hasattr(P, "run"):
        return P.run(spec)
    from . import engine
    return engine.run(spec)


def seams(P):
    """Build the C seams; the disk seam is preloaded into the worker processes."""
    from . import simalloc
    simalloc._build()
    if getattr(P, "DISK", False):
        os.environ["LD_PRELOAD"] = simalloc._build("simfs")
        os.environ["DST_SIMFS"] = "1"


# ---------------------------------------------------------------- workers ----
def _quiet():
    if not os.environ.get("DST_DEBUG"):
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 2)
        os.close(fd)


def _one(P, base, i, tier):
    from . import engine
    try:
        spec = make_spec(P, base, i, tier)
        t = time.monotonic()
        res = execute(P, spec)
        res["wall"] = time.monotonic() - t
        res["nontrivial"] = bool(P.nontrivial(spec, res)) if not res.get("harness") else False
        res["key"] = hashlib.sha256(json.dumps(
            {k: v for k, v in spec.items() if k not in ("run", "seed")}, sort_keys=True).encode()
            + str(res.get("sig", "")).encode()).hexdigest()[:20]
        res["forks"] = engine.ORACLE_FORKS[0]
        engine.ORACLE_FORKS[0] = 0
        for k in ("outs", "ops", "switches"):
            res.pop(k, None)
        return res
    except BaseException:
        import traceback
        return {"harness": "driver", "detail": traceback.format_exc(), "violation": None, "stats": {}}


def _worker(pid, base, tier, conn):
    _quiet()
    boot.load()
    P = prop(pid)
    if hasattr(P, "prepare"):
        P.prepare()
    gc.collect()
    gc.freeze()
    conn.send(None)
    while True:
        i = conn.recv()
        if i is None:
            break
        conn.send((i, _one(P, base, i, tier)))
    conn.close()


def batch(pid, base, tier, indices, nworkers, budget_s, stop_on_violation=True):
    """Worker processes fork one pristine child per simulated execution; the
    workers themselves never call qetpy code."""
    ctx = mp.get_context("spawn")
    todo = list(indices)[::-1]
    conns, procs = {}, []
    for _ in range(nworkers):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(pid, base, tier, b), daemon=True)
        p.start()
        b.close()
        conns[a] = p
        procs.append(p)
    out, stop = {}, False
    t0 = time.monotonic()
    while conns:
        if time.monotonic() - t0 > budget_s + 240:
            break
        for c in mp.connection.wait(list(conns), timeout=5):
            try:
                r = c.recv()
            except EOFError:
                del conns[c]
                out.setdefault(-1 - len(out), {"harness": "worker-died", "detail": "worker process ended",
                                               "violation": None, "stats": {}})
                continue
            if r is not None:
                out[r[0]] = r[1]
                v = r[1].get("violation")
                if v and stop_on_violation:
                    stop = True
            if time.monotonic() - t0 > budget_s:
                stop = True
            try:
                if stop or not todo:
                    c.send(None)
                    del conns[c]
                else:
                    c.send(todo.pop())
            except OSError:
                conns.pop(c, None)
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    return out, time.monotonic() - t0


# ----------------------------------------------------------- minimisation ----
def same(v, w):
    return bool(v) and bool(w) and v["class"] == w["class"] and v.get("what") == w.get("what")


def _reductions(spec):
    """Candidate smaller specs, most aggressive first."""
    if "ops" in spec:
        n = len(spec["ops"])
        size = n // 2
        while size >= 1:
            for lo in range(0, n, size):
                c = copy.deepcopy(spec)
                del c["ops"][lo:lo + size]
                if c["ops"]:
                    yield c
            size //= 2
        for i in range(n):
            if spec["ops"][i].get("fault"):
                c = copy.deepcopy(spec)
                del c["ops"][i]["fault"]
                yield c
                if spec["ops"][i]["fault"].get("persist"):
                    c = copy.deepcopy(spec)
                    c["ops"][i]["fault"]["persist"] = False
                    yield c
        for i in range(n):
            for k in list(spec["ops"][i].get("a", {})):
                if spec["ops"][i]["m"] in ("@new", "update_signal", "@fn") or spec["ops"][i].get("fs"):
                    continue
                c = copy.deepcopy(spec)
                del c["ops"][i]["a"][k]
                yield c
    if spec.get("threads"):
        for t in range(len(spec["threads"])):
            if len(spec["threads"]) > 1:
                c = copy.deepcopy(spec)
                del c["threads"][t]
                yield c
            for i in range(len(spec["threads"][t])):
                c = copy.deepcopy(spec)
                del c["threads"][t][i]
                if c["threads"][t]:
                    yield c
                if spec["threads"][t][i].get("fault"):
                    c = copy.deepcopy(spec)
                    del c["threads"][t][i]["fault"]
                    yield c
        for i in range(1, len(spec.get("pre", []))):
            c = copy.deepcopy(spec)
            del c["pre"][i]
            yield c
    if (spec.get("sched") or {}).get("policy") == "list":
        sw = spec["sched"]["switches"]
        size = max(1, len(sw) // 2)
        while size >= 1:
            for lo in range(0, len(sw), size):
                c = copy.deepcopy(spec)
                del c["sched"]["switches"][lo:lo + size]
                yield c
            size //= 2


def minimise(P, spec, viol, seconds):
    t0 = time.monotonic()
    best, bv, tries = spec, viol, 0
    if spec.get("threads") and spec["sched"]["policy"] != "list":
        r = execute(P, spec)
        c = copy.deepcopy(spec)
        c["sched"] = {"policy": "list", "switches": r.get("switches", []), "gran": spec["sched"].get("gran", "line")}
        r2 = execute(P, c)
        if same(r2.get("violation"), viol):
            best, bv = c, r2["violation"]
    red = P.reductions if hasattr(P, "reductions") else _reductions
    progress = True
    while progress and time.monotonic() - t0 < seconds:
        progress = False
        for c in red(best):
            if time.monotonic() - t0 > seconds:
                break
            tries += 1
            try:
                r = execute(P, c)
            except Exception:
                continue
            if same(r.get("violation"), viol):
                best, bv, progress = c, r["violation"], True
                break
    return best, bv, tries


def _min_worker(pid, spec, viol, seconds, conn):
    _quiet()
    boot.load()
    P = prop(pid)
    if hasattr(P, "prepare"):
        P.prepare()
    gc.freeze()
    try:
        conn.send(minimise(P, spec, viol, seconds))
    except BaseException:
        conn.send((spec, viol, -1))


def in_fresh_process(target, args, timeout):
    ctx = mp.get_context("spawn")
    a, b = ctx.Pipe()
    p = ctx.Process(target=target, args=args + (b,), daemon=True)
    p.start()
    b.close()
    try:
        r = a.recv() if a.poll(timeout) else None
    except EOFError:
        r = None
    p.join(2)
    if p.is_alive():
        p.kill()
    return r


def _replay_worker(pid, spec, conn):
    _quiet()
    boot.load()
    P = prop(pid)
    if hasattr(P, "prepare"):
        P.prepare()
    r = execute(P, spec)
    conn.send({"violation": r.get("violation"), "digest": r.get("digest"), "harness": r.get("harness"), "detail": r.get("detail")})


def replay(pid, spec, timeout=400):
    seams(prop(pid))
    return in_fresh_process(_replay_worker, (pid, spec), timeout)


# ------------------------------------------------------------------ check ----
def known_findings(pid):
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid and k.get("status") == "known"]


def check(pid, tier, base):
    t0 = time.monotonic()
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    P = prop(pid)
    boot.env()
    n = P.RUNS[tier]
    if os.environ.get("DST_RUNS"):
        n = int(os.environ["DST_RUNS"])
    nworkers = int(os.environ.get("DST_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    budget = float(os.environ.get("DST_BUDGET", {"quick": 420, "thorough": 3600}[tier]))
    print(f"property {pid} tier {tier} seed {base} runs {n} workers {nworkers}", flush=True)
    seams(P)
    res, wall = batch(pid, base, tier, range(n), nworkers, budget)
    bad = sorted(i for i, r in res.items() if r.get("violation"))
    harness = sorted(i for i, r in res.items() if r.get("harness"))
    rc, viols = 0, 0
    lines = []
    unrepro = 0
    for i in bad[:6]:
        spec = make_spec(P, base, i, tier)
        v = res[i]["violation"]
        print(f"run {i} (seed {spec['seed']}): {v['class']} in {v.get('what')}: {v['detail']}", flush=True)
        r = in_fresh_process(_min_worker, (pid, spec, v, 45 if tier == "quick" else 180), 420)
        mspec, mv, tries = r if r else (spec, v, 0)
        rr = replay(pid, mspec)
        if not (rr and same(rr["violation"], v)):
            mspec, mv = spec, v
            rr = replay(pid, spec)
            if not (rr and rr["violation"]):
                unrepro += 1
                print(f"  not reproduced in a fresh process", flush=True)
                continue
            mv = rr["violation"]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{pid}-{base}-{i}.json")
        json.dump({"property": pid, "verif_seed": base, "run": i, "run_seed": spec["seed"],
                   "violation": mv, "digest": rr["digest"], "minimised": mspec is not spec,
                   "reduction_attempts": tries, "spec": mspec}, open(path, "w"), indent=1)
        print(f"  minimised: {mv['class']} in {mv.get('what')}: {mv['detail']}", flush=True)
        lines.append(f"VIOLATION property={pid} replay={path}")
        viols += 1
        rc = 1
        break
    evidence(P, tier, base, res, wall, viols, n, nworkers, time.monotonic() - t0)
    for l in lines:
        print(l, flush=True)
    if os.environ.get("DST_DEBUG"):
        for i in harness[:8]:
            print("harness", i, res[i]["harness"], res[i]["detail"][-600:])
    if rc == 0:
        if unrepro:
            print(f"ERROR: {unrepro} violation(s) did not reproduce", flush=True)
            return 3
        fatal = [i for i in harness if res[i]["harness"] != "died" or not _alloc_faults(P)]
        if fatal:
            r = res[fatal[0]]
            print(f"ERROR: {len(fatal)} runs had harness failures; first: run {fatal[0]}: {r['harness']}\n{r['detail']}", flush=True)
            return 2
        if len(harness) > 0.02 * max(1, len(res)):
            print(f"ERROR: {len(harness)} runs died", flush=True)
            return 2
        print(f"OK property={pid}: {len(res)} runs, {wall:.1f}s", flush=True)
    return rc


def _alloc_faults(P):
    return getattr(P, "ALLOC_FAULTS", True)


def evidence(P, tier, base, res, wall, viols, n, nworkers, total):
    st = Counter()
    digests, keys, nontriv = set(), set(), 0
    slow = 0
    forks = 0
    for i in sorted(res):
        r = res[i]
        for k, v in (r.get("stats") or {}).items():
            st[k] += v
        forks += r.get("forks", 0)
        slow = max(slow, r.get("wall", 0))
        if r.get("nontrivial"):
            if r["key"] not in keys:
                nontriv += 1
            keys.add(r["key"])
        digests.add(r.get("digest"))
    samples = []
    for i in sorted(res)[:2]:
        sp = make_spec(P, base, i, tier)
        samples.append(json.loads(json.dumps(sp))if len(json.dumps(sp)) < 6000 else
                       {"run": i, "seed": sp["seed"], "excerpt": json.dumps(sp)[:4000]})
    faults = {k.split(":", 1)[1]: v for k, v in st.items() if k.startswith("fired:")}
    cov = {
        "evaluations": len(res),
        "distinct_nontrivial": nontriv,
        "rule": getattr(P, "RULE", (P.__doc__ or "").strip()),
        "samples": samples,
        "planned_runs": n,
        "runs_per_hour (one seed each)": round(len(res) / max(wall, 1e-9) * 3600),
        "simulated_time": "logical: %d operations, %d simulator events (executed qetpy lines/instructions owned by the scheduler)" % (st["ops"], st["events"]),
        "operations": st["ops"],
        "simulator_events": st["events"],
        "faults_fired": faults,
        "faults_armed": {k.split(":", 1)[1]: v for k, v in st.items() if k.startswith("armed:")},
        "fault_outcomes": {k.split(":", 1)[1]: v for k, v in st.items() if k.startswith("outcome:")},
        "restarts": st["restarts"], "rejected_operations": st["rejected"],
        "preemptions": st["preemptions"],
        "saved_figures": st["saved figures"],
        "probes": {k.split(":", 1)[1]: v for k, v in st.items() if k.startswith("probe:")},
        "operation_mix": {k.split(":", 1)[1]: v for k, v in sorted(st.items()) if k.startswith("op:")},
        "distinct_outcome_histories": len(digests),
        "distinct_measure": "distinct run outcome digests (all returned values, exceptions and fault counters)" +
                            ("; for threaded runs also the realised preemption list" if st["threads"] else ""),
        "oracle_executions": forks,
        "harness_aborts": sum(1 for r in res.values() if r.get("harness")),
        "slowest_run_s": round(slow, 2),
        "workers": nworkers,
        "real_components": "all of qetpy, numpy, scipy, iminuit, matplotlib as installed",
        "stubbed_components": getattr(P, "STUBS", "numpy data allocator (NEP 49 handler over libc), thread scheduler (token passing at sys.monitoring events)"),
    }
    ev = {"property": P.ID, "tier": tier, "seed": base, "level": getattr(P, "LEVEL", LEVEL),
          "coverage": cov, "assumptions": getattr(P, "ASSUMPTIONS", [
              "The pristine-process execution of the same code on a fresh object is the reference; a defect present there too is outside this property.",
              "Sampling: absence of a violation in the explored runs is evidence, not proof."]),
          "wall_s": round(total, 2), "violations": viols}
    with open(os.path.join(boot.VERIF, "evidence", P.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
