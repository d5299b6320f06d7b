"""C04: dIdV results independent of order, repetition, plots and earlier fits."""
from ..models import maybe, pick, seed
from ..models_didv import M_DIDV, M_FROMDATA, M_PRIORS

ID = "C04"
RUNS = {"quick": 400, "thorough": 8000}
RULE = ("Seeded call histories (8-30 operations) over one to three dIdV objects (from raw traces, with priors, from averages): "
        "processing, fits, reads, plots, copies, process restarts. Non-trivial: at least two fits or one fit and a repeated processing.")


def history(rng, length, M, nobj=1, plots=True, restart=True, prewarm=None):
    metas, kinds, ops, live = [], [], [], set()
    for k in range(nobj):
        me = M_DIDV.meta(rng)
        if k and maybe(rng, 0.6):
            me = dict(metas[0], seed=pick(rng, [metas[0]["seed"], seed(rng)]))
            if maybe(rng, 0.3):
                me["add"] = not me["add"]
        metas.append(me)
        kinds.append(pick(rng, M))
    lastfit = {}
    while len(ops) < length:
        k = rng.randrange(nobj)
        o, me, mo = f"o{k}", metas[k], kinds[k]
        if o not in live:
            ops.append(mo.ctor(rng, me, o))
            live.add(o)
            continue
        r = rng.random()
        if r < 0.14:
            ops.append({"o": o, "m": "processtraces", "a": {}})
        elif r < 0.55:
            if o in lastfit and maybe(rng, 0.25):
                ops.append(dict(lastfit[o]))
            else:
                ops.append(mo.fit(rng, me, o))
                lastfit[o] = ops[-1]
        elif r < 0.86:
            ops.append(mo.read(rng, me, o))
        elif r < 0.90 and plots:
            ops.append(mo.plot(rng, me, o))
        elif r < 0.925:
            ops.append({"o": o, "m": "@pickle", "how": pick(rng, ["pickle", "deepcopy"])})
        elif r < 0.945 and restart and len(ops) > 2:
            ops.append({"m": "@restart"})
        elif r < 0.96:
            ops.append({"o": o, "m": "@del"})
            live.discard(o)
    for k in range(nobj):
        if f"o{k}" in live:
            ops += kinds[k].observe_all(rng, metas[k], f"o{k}")[:pick(rng, [2, 5])]
    return ops


def gen(rng, i, tier):
    length = pick(rng, [8, 12, 18]) if tier == "quick" else pick(rng, [8, 16, 30])
    M = [M_DIDV, M_DIDV, M_DIDV, M_PRIORS, M_FROMDATA]
    return {"ops": history(rng, length, M, pick(rng, [1, 1, 2, 3])), "opts": {"hold": True}}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("op:dofit", 0) + st.get("op:processtraces", 0) >= 2
