"""C18: random routines are functions of their arguments and the generator state."""
import copy

from .. import catalog, engine, mixed, simrng
from ..models import maybe, pick, seed
from .c02 import fault

ID = "C18"
RUNS = {"quick": 1200, "thorough": 25000}
RULE = ("Seeded histories of randomised routines started from seeded, advanced and scripted generator states, interleaved with other "
        "calls and with failed and interrupted ones; result and generator state afterwards are compared with a fresh process; "
        "noise from one state is checked for scaling and additivity. Non-trivial: at least two randomised calls.")


def state(rng):
    r = rng.random()
    if r < 0.35:
        return {"rngscript": simrng.script(rng)}
    st = {"rng": pick(rng, [7, 11, seed(rng)])}
    if maybe(rng, 0.5):
        st["rngadv"] = pick(rng, [1, 2, 3, 7])
    return st


def setstate(op, st):
    for k in ("rng", "rngadv", "rngscript"):
        op.pop(k, None)
    op.update(copy.deepcopy(st), rngstate=True)
    return op


def gen(rng, i, tier):
    c = catalog.Ctx(rng)
    zoo = mixed.Zoo(rng, pick(rng, [0, 0, 1]))
    ops, grp = [], 0
    states = [state(rng) for _ in range(3)]
    faulty = maybe(rng, 0.5)
    last = []
    length = pick(rng, [5, 9, 12]) if tier == "quick" else pick(rng, [6, 14, 28])
    while len(ops) < length:
        r = rng.random()
        if r < 0.12:
            ops += family(rng, c, pick(rng, states), grp)
            grp += 1
        elif r < 0.75:
            if last and maybe(rng, 0.4):
                op = copy.deepcopy(pick(rng, last))
            else:
                op = catalog.call(rng, c, mixed.STOCH)
                last.append(copy.deepcopy(op))
            setstate(op, pick(rng, states) if maybe(rng, 0.7) else state(rng))
            if faulty and maybe(rng, 0.4):
                ops.append(dict(op, fault=fault(rng, pick(rng, ["alloc", "interrupt"]))))
                if maybe(rng, 0.6):
                    ops.append(copy.deepcopy(op))
            else:
                ops.append(op)
        elif zoo.objs and maybe(rng, 0.5):
            ops += zoo.next(rng)
        else:
            ops.append(catalog.call(rng, c, mixed.PURE))
    return {"ops": ops}


def family(rng, c, st, g):
    """Noise calls from one generator state whose results are related."""
    n = pick(rng, [64, 65, 128])
    p = {"$": "psd", "n": n, "fs": c.fs, "level": 1e-22, "seed": seed(rng)}
    if maybe(rng, 0.3):
        p["dc"] = "zero"
    nt = pick(rng, [1, 2, 3])
    k = pick(rng, [4.0, 0.25, 9.0, 1e-4])
    out = []
    roles = [("base", p), ("scaled", {"$": "twin", "of": p, "how": "scale", "k": k})]
    q = pick(rng, [2, 3])
    roles += [("part", {"$": "masked", "of": p, "q": q, "r": r}) for r in range(q)]
    rng.shuffle(roles)
    for role, ps in roles:
        op = {"m": "@fn", "f": "core.gen_noise", "pa": [ps], "a": {"fs": c.fs, "ntraces": nt}, "stochastic": True,
              "tag": {"g": g, "role": role, "k": k, "q": q}}
        out.append(setstate(op, st))
    return out


def run(spec):
    s = dict(spec, want_outs=True)
    res = engine.run(s)
    if res.get("violation") or res.get("harness"):
        return res
    v = related(res["ops"], res["outs"])
    if v:
        res["violation"] = v
    return res


def _v(cls, i, op, detail):
    return {"class": cls, "op": i, "what": op["f"], "detail": detail, "during_fault": False}


def related(ops, outs):
    import numpy as np
    seen, fams = {}, {}
    for i, (op, out) in enumerate(zip(ops, outs)):
        if out.get("s") != "ok" or "rngdigest" not in out:
            continue
        # states that differ before stay different: the routine must not reset the stream
        key = str([op["f"], op["pa"], op.get("a")])
        st = str([op.get("rng"), op.get("rngadv"), op.get("rngscript")])
        for st2, d2 in seen.setdefault(key, {}).items():
            if st2 != st and d2 == out["rngdigest"]:
                return _v("stream-reset", i, op, "two different generator states lead to the same later stream")
        seen[key][st] = out["rngdigest"]
        t = op.get("tag")
        if t:
            fams.setdefault(t["g"], {}).setdefault(t["role"], []).append((i, op, out["v"]))
    for f in fams.values():
        if "base" not in f:
            continue
        i, op, b = f["base"][0]
        k, q = op["tag"]["k"], op["tag"]["q"]
        scale = np.abs(b).max()
        for i, op, x in f.get("scaled", []):
            if x.shape != b.shape or not np.allclose(x, np.sqrt(k) * b, rtol=0, atol=1e-9 * scale * max(1, np.sqrt(k)) + 1e-300):
                return _v("not-scaling", i, op, f"noise for {k} times the spectrum is not {k ** 0.5} times the noise from the same state")
        if len(f.get("part", [])) == q:
            tot = sum(x for _, _, x in f["part"])
            if tot.shape != b.shape or not np.allclose(tot, b, rtol=0, atol=1e-9 * scale + 1e-300):
                return _v("not-additive", i, op, "noise over disjoint parts of the spectrum does not add up to the noise of the whole")
    return None


def nontrivial(spec, res):
    st = res["stats"]
    return sum(v for k, v in st.items() if k in ("op:core.gen_noise", "op:cut._cut.symmetrizedist", "op:cut._cut.slopecut", "op:cut.autocuts")) >= 2
