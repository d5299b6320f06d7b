"""C05: failed or interrupted dIdV steps leave consistent results."""
from ..models import maybe, pick
from ..models_didv import M_DIDV, M_FROMDATA, M_PRIORS
from .c02 import fault

ID = "C05"
RUNS = {"quick": 400, "thorough": 8000}
RULE = ("Seeded dIdV histories with one to three injected faults (n-th numpy allocation fails, once or persistently; "
        "KeyboardInterrupt at the n-th executed line) inside processing, fits, reads and construction. "
        "Non-trivial: at least one fault fired.")


def gen(rng, i, tier):
    mo = pick(rng, [M_DIDV, M_DIDV, M_DIDV, M_PRIORS, M_FROMDATA])
    me = mo.meta(rng)
    me["nt"] = pick(rng, [3, 4])
    ops = [mo.ctor(rng, me, "o")]
    for _ in range(rng.randrange(0, 4)):
        ops.append(mo.fit(rng, me, "o") if maybe(rng, 0.6) else mo.read(rng, me, "o"))
    for _ in range(pick(rng, [1, 1, 2, 3])):
        kind = pick(rng, ["alloc", "alloc", "interrupt"])
        r = rng.random()
        if r < 0.65:
            op = mo.fit(rng, me, "o")
        elif r < 0.88 and mo is not M_FROMDATA:
            op = {"o": "o", "m": "processtraces", "a": {}}
        elif r < 0.95:
            op = mo.read(rng, me, "o")
            if op["m"] == "@obs":
                op = {"o": "o", "m": "fitresult", "a": {"poles": 2}}
        else:
            op = mo.ctor(rng, me, "o")
        ops.append(dict(op, fault=fault(rng, kind)))
        if op["m"] == "@new":
            ops.append(mo.ctor(rng, me, "o"))
        elif kind == "interrupt" and maybe(rng, 0.7):
            ops.append(dict(op))
        q = mo.observe_all(rng, me, "o")
        ops += q[:pick(rng, [1, 3, 5])]
        if maybe(rng, 0.5):
            ops.append(mo.fit(rng, me, "o"))
    ops += mo.observe_all(rng, me, "o")
    return {"ops": ops, "opts": {"hold": True}}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("fired:alloc", 0) + st.get("fired:interrupt", 0) >= 1
