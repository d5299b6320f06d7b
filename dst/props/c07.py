"""C07: noise quantities reflect the current traces."""
from ..models import maybe, pick, seed
from ..models_noise import M_NOISE

ID = "C07"
RUNS = {"quick": 1200, "thorough": 25000}
RULE = ("Seeded histories over one to three noise objects: calculations in any order, slope removals in between, plots, "
        "reads, copies, save/load through a file, process restarts. Non-trivial: at least two calculations or one and a slope removal.")


def history(rng, length, nobj, plots=0.02):
    metas, ops, live = [], [], set()
    for k in range(nobj):
        me = M_NOISE.meta(rng)
        if k and maybe(rng, 0.6):
            me = dict(metas[0], seed=seed(rng))
        metas.append(me)
    while len(ops) < length:
        k = rng.randrange(nobj)
        o, me = f"o{k}", metas[k]
        if o not in live:
            ops.append(M_NOISE.ctor(rng, me, o))
            live.add(o)
            continue
        r = rng.random()
        if r < 0.45:
            ops.append(M_NOISE.calc(rng, me, o))
        elif r < 0.57:
            ops.append({"o": o, "m": "remove_trace_slope", "a": {}})
        elif r < 0.87:
            ops.append(M_NOISE.obs(rng, me, o))
        elif r < 0.87 + plots:
            ops.append(M_NOISE.plot(rng, me, o))
        elif r < 0.93:
            ops.append({"o": o, "m": pick(rng, ["@pickle", "@saveload"]), "how": pick(rng, ["pickle", "deepcopy"])})
        elif r < 0.95 and len(ops) > 2:
            ops.append({"m": "@restart"})
        elif r < 0.96:
            ops.append({"o": o, "m": "@del"})
            live.discard(o)
    for k in range(nobj):
        if f"o{k}" in live:
            ops += M_NOISE.observe_all(rng, metas[k], f"o{k}")
    return ops


def gen(rng, i, tier):
    length = pick(rng, [6, 10, 16]) if tier == "quick" else pick(rng, [6, 14, 30])
    return {"ops": history(rng, length, pick(rng, [1, 1, 2, 3])), "opts": {"hold": True}}


def nontrivial(spec, res):
    st = res["stats"]
    n = sum(v for k, v in st.items() if k.startswith("op:calculate"))
    return n >= 2 or (n and st.get("op:remove_trace_slope", 0))
