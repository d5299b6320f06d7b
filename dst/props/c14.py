"""C14: multi-template filter set-up is reusable by any number of traces and threads."""
from .. import models_nsmb as M
from ..models import maybe, pick
from .c02 import fault
from .c03 import sched

ID = "C14"
RUNS = {"quick": 700, "thorough": 14000}
RULE = ("One or two shared set-ups, then seeded fits of many traces (sequential with allocation failures, interrupts and rejected "
        "traces; or in two to three threads under a seeded schedule); set-up arrays watched at every executed line. "
        "Non-trivial: at least two fits on one set-up.")


def gen(rng, i, tier):
    metas = [M.meta(rng)]
    twins = maybe(rng, 0.2)      # two set-ups of the same size, used at the same time
    if twins:
        metas[0].update(n=64, ttl=False)
        metas.append(dict(metas[0], pool=[], seed=9))
    elif maybe(rng, 0.25):
        metas.append(M.meta(rng) if maybe(rng, 0.5) else dict(metas[0], pool=[], seed=9))
    pre = []
    for k, me in enumerate(metas):
        pre += M.setup(rng, me, f"S{k}")
    q = lambda con: (lambda k: M.query(rng, metas[k], f"S{k}", con))(rng.randrange(len(metas)))
    opts = {"watch": True, "hold": True, "probe": True, "probe_every": pick(rng, [1, 3])}
    if twins:
        ths = [[M.query(rng, metas[k], f"S{k}", 0.9) for _ in range(pick(rng, [1, 1, 2]))] for k in (0, 1)]
        if maybe(rng, 0.7):
            for op in ths[0] + ths[1]:
                if op["f"] == "core.of_nsmb_con":     # both go through the fits with and without signal
                    op["a"]["sigpolarityconstraint"] = {"$": "arr", "v": [pick(rng, [1.0, -1.0])]}
        sc = dict(sched(rng, 2, 1000), gran="line")
        if maybe(rng, 0.5):
            sc = {"policy": "site", "seed": sc["seed"], "gran": "line", "p": pick(rng, [0.03, 0.1, 0.2])}
        return {"pre": pre, "threads": ths, "sched": sc, "opts": dict(opts, probe_every=17)}
    if maybe(rng, 0.4):
        qs = [q(0.02) for _ in range(2)]
        ths = []
        for t in range(pick(rng, [2, 2, 3])):
            ops = []
            for _ in range(pick(rng, [1, 2, 3])):
                op = dict(pick(rng, qs)) if maybe(rng, 0.5) else q(0.02)
                if maybe(rng, 0.08):
                    op["fault"] = fault(rng, pick(rng, ["alloc", "interrupt"]))
                ops.append(op)
            ths.append(ops)
        sc = sched(rng, len(ths), 200)
        if any(op["f"].endswith("_con") for t in ths for op in t):
            sc["gran"] = "line"
            opts["probe_every"] = 7
        elif sc["gran"] == "instr":
            opts["probe_every"] = 17
        return {"pre": pre, "threads": ths, "sched": sc, "opts": opts}
    ops = list(pre)
    faulty = maybe(rng, 0.6)
    qs = []
    for _ in range(pick(rng, [3, 5, 8]) if tier == "quick" else pick(rng, [4, 8, 16])):
        op = dict(pick(rng, qs)) if qs and maybe(rng, 0.25) else q(0.12)
        qs.append({k: v for k, v in op.items() if k != "fault"})
        if faulty and maybe(rng, 0.35):
            op = dict(op, fault=fault(rng, pick(rng, ["alloc", "interrupt"])))
        ops.append(op)
    if maybe(rng, 0.3):
        ops.append(dict(pick(rng, ops[:len(pre)])))
        ops[-1].pop("keep", None)
    ops += [dict(x) for x in qs[:2]]
    return {"ops": ops, "opts": opts}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("op:core.of_nsmb", 0) + st.get("op:core.of_mb", 0) + st.get("op:core.of_nsmb_con", 0) >= 2
