"""C08: failed noise calculations are atomic, interrupted ones repeatable."""
from ..models import maybe, pick
from ..models_noise import M_NOISE
from .c02 import fault

ID = "C08"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("Seeded noise-object histories with one to three injected faults (n-th allocation fails, once or persistently; interrupt at "
        "the n-th executed line) inside calculations, slope removal and construction. Non-trivial: at least one fault fired.")


def gen(rng, i, tier):
    me = M_NOISE.meta(rng)
    me["shape"] = [5, pick(rng, [1, 2, 2, 3]), pick(rng, [9, 16, 33])]
    ops = [M_NOISE.ctor(rng, me, "o")]
    def some():
        return {"o": "o", "m": "remove_trace_slope", "a": {}} if maybe(rng, 0.2) else M_NOISE.calc(rng, me, "o")
    for _ in range(rng.randrange(0, 4)):
        ops.append(some())
    for _ in range(pick(rng, [1, 1, 2, 3])):
        kind = pick(rng, ["alloc", "interrupt"])
        op = some()
        if maybe(rng, 0.04):
            op = M_NOISE.ctor(rng, me, "o")
        ops.append(dict(op, fault=fault(rng, kind)))
        if op["m"] == "@new":
            ops.append(dict(op))
        elif maybe(rng, 0.6):
            ops.append(dict(op))
        for _ in range(rng.randrange(0, 4)):
            ops.append(M_NOISE.obs(rng, me, "o") if maybe(rng, 0.7) else some())
        if op["m"] == "remove_trace_slope" or maybe(rng, 0.3):
            ops.append(M_NOISE.calc(rng, me, "o"))
    ops += M_NOISE.observe_all(rng, me, "o")
    return {"ops": ops, "opts": {"hold": True}}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("fired:alloc", 0) + st.get("fired:interrupt", 0) >= 1
