"""C03: concurrent queries on one shared filter answer as if alone."""
from ..models import M_OF, maybe, pick, seed
from .c02 import fault

ID = "C03"
RUNS = {"quick": 1200, "thorough": 20000}
TECHNIQUE = "deterministic simulation: seeded thread schedules at line/bytecode granularity"


def sched(rng, n, horizon=400):
    g = pick(rng, ["line", "line", "instr"])
    p = pick(rng, ["rand", "rand", "pct", "pct", "rr", "site", "site"])
    s = {"policy": p, "seed": seed(rng), "gran": g}
    if p == "rand":
        s["p"] = pick(rng, [0.02, 0.1, 0.3, 0.6]) / (4 if g == "instr" else 1)
    elif p == "pct":
        s["d"] = pick(rng, [1, 2, 3, 5])
        s["horizon"] = horizon * (8 if g == "instr" else 1)
    elif p == "site":
        s["p"] = pick(rng, [0.01, 0.03, 0.1])
    else:
        s["q"] = pick(rng, [1, 2, 3, 7])
    return s


def gen(rng, i, tier):
    me = M_OF.meta(rng)
    me["n"] = pick(rng, [64, 65, 128, 250])
    pre = [M_OF.ctor(rng, me, "s")]
    for _ in range(pick(rng, [0, 0, 1, 2])):
        pre.append(M_OF.query(rng, me, "s") if maybe(rng, 0.5) else
                   {"o": "s", "m": "update_signal", "a": {"signal": M_OF.trace(rng, me)}})
    n = pick(rng, [2, 2, 3, 4])
    ths = []
    qs = [M_OF.query(rng, me, "s") for _ in range(pick(rng, [1, 2, 3]))]
    for t in range(n):
        ops = []
        for _ in range(pick(rng, [1, 2, 3])):
            ops.append(dict(pick(rng, qs)) if maybe(rng, 0.6) else M_OF.query(rng, me, "s"))
            if maybe(rng, 0.06):
                ops[-1]["fault"] = fault(rng, pick(rng, ["alloc", "interrupt"]))
        ths.append(ops)
    return {"pre": pre, "threads": ths, "sched": sched(rng, n)}


def nontrivial(spec, res):
    return res["stats"].get("preemptions", 0) >= 1
