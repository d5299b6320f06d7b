"""C30: the same calls give the same results in every process."""
import atexit
from collections import Counter

from .. import boot, catalog, compare, engine, mixed, peer, plots
from ..models import maybe, pick

ID = "C30"
RUNS = {"quick": 1000, "thorough": 20000}
RULE = ("Seeded histories of calls of every class and function (plots and randomised routines included, generator seeded) executed in two "
        "processes whose surroundings differ: hash seed, clock (still, jumping back and forth, stepping), process id, entropy source, "
        "directory, umask, time zone, locale, environment, heap placement, the caller's settings and thread; in part of the runs the objects are pickled in the middle and "
        "the history continues in a third process. All results, exceptions, printed texts, curves and the generator state must agree. "
        "Non-trivial: at least two results compared.")
STUBS = "clocks, process id and entropy of the child processes (preloaded seam); numpy data allocator"
ASSUMPTIONS = ["All processes run on one machine with one numpy build and one BLAS thread; agreement is required to 1e-6 relative.",
               "Sampling: absence of a violation in the explored runs is evidence, not proof."]
_peers = {}


def prepare():
    for k in range(len(peer.KINDS)):
        _peers[k] = peer.Peer(k)
    for p in _peers.values():
        p.call(0, [], None, {}, False)      # up and running
    atexit.register(close)


def close():
    for p in _peers.values():
        p.close()
    _peers.clear()


def gen(rng, i, tier):
    c = catalog.Ctx(rng, odd=0.2)
    zoo = mixed.Zoo(rng, pick(rng, [0, 1, 2, 3]))
    pl = pick(rng, [0.0, 0.0, 0.3])
    share = pick(rng, [0.3, 0.6])
    stoch = pick(rng, [0.1, 0.5])
    length = pick(rng, [6, 10, 14]) if tier == "quick" else pick(rng, [8, 16, 32])
    ops = []
    while len(ops) < length:
        if zoo.objs and not maybe(rng, share):
            o = pick(rng, zoo.objs)
            if o.made and o.kind == "tes" and maybe(rng, pl):
                new = [plots.noise_sim(rng, o.name)]
            elif o.made and o.kind == "noise" and maybe(rng, pl):
                new = [plots.compare_noise(rng, [o.name], [o.me])]
            else:
                new = zoo.next(rng, pl)
        else:
            new = [catalog.call(rng, c, mixed.STOCH if maybe(rng, stoch) else mixed.PURE)]
            if maybe(rng, 0.6):
                new[0].pop("rng", None)     # goes on from wherever the generator is
            new[0]["rngstate"] = True
        for op in new:
            op["stdout"] = True
        ops += new
    spec = {"ops": ops, "peer": 1 + rng.randrange(len(peer.KINDS) - 1), "salt": rng.randrange(1 << 32),
            "opts": {"env": {"npseed": rng.randrange(1 << 31), "pyseed": rng.randrange(1 << 31)}}}
    if maybe(rng, 0.3) and not any(o.get("keep") for o in ops):
        spec["cut"] = rng.randrange(1, length)
        spec["peer2"] = 1 + rng.randrange(len(peer.KINDS) - 1)
    return spec


class _Fail(Exception):
    pass


def _call(k, *a):
    r = _peers[k].call(*a)
    if r[0] != "ok":
        raise _Fail(r)
    return r[1]


def _history(spec, peers):
    """Outcomes of the history, executed by the given peers (one per segment)."""
    segs = [spec["ops"]] if "cut" not in spec else [spec["ops"][:spec["cut"]], spec["ops"][spec["cut"]:]]
    outs, blob, env = [], None, [0, 0, 0]
    for j, seg in enumerate(segs):
        last = j == len(segs) - 1
        r = _call(peers[j], spec["salt"] + j, seg, blob, spec["opts"], not last)
        if not last and r["blob"] is None:
            return outs, "saving the objects failed: " + r["pickle_error"], env
        blob = r["blob"]
        outs += r["outs"]
        env = [a + b for a, b in zip(env, r["env"])]
    return outs, None, env


def run(spec):
    st = Counter()
    try:
        base, err, _ = _history(spec, [0, 0])
        got, err2, env = _history(spec, [spec["peer"], spec.get("peer2", spec["peer"])])
    except _Fail as e:
        return {"harness": e.args[0][1], "detail": str(e.args[0][2]), "violation": None, "stats": {}, "digest": "harness"}
    for op in spec["ops"]:
        st["ops"] += 1
        st["op:" + (op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"]))] += 1
    st["fired:clock reading under a simulated clock"] += env[0]
    st["fired:process id asked"] += env[1]
    st["fired:entropy drawn"] += env[2]
    st["restarts"] += 1 if "cut" in spec else 0
    st["probe:peer %d" % spec["peer"]] += 1
    viol = None
    if err or err2:
        viol = {"class": "not-restorable", "op": len(base), "what": "@restart", "detail": err or err2, "during_fault": False}
    for i, (op, a, b) in enumerate(zip(spec["ops"], got, base)):
        d = engine.outcome_diff(a, b, 1e-6)
        if d:
            viol = {"class": "not-reproducible", "op": i, "what": op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"]),
                    "detail": "in another process: " + d, "during_fault": False}
            break
        st["compared"] += 1
        if b["s"] == "exc":
            st["rejected"] += 1
    dig = compare.digest([[[o.get("s"), o.get("t"), o.get("v"), o.get("out"), o.get("rngdigest")] for o in x] for x in (base, got)])
    return {"violation": viol, "stats": dict(st), "digest": dig}


def nontrivial(spec, res):
    return res["stats"].get("compared", 0) >= 2
