"""C11: caller data is never modified, not even temporarily or when a call fails."""
from .. import catalog, mixed
from ..models import maybe, pick
from .c02 import fault

ID = "C11"
RUNS = {"quick": 1400, "thorough": 20000}
RULE = ("Seeded sequences of calls of every public function and every class (constructors, methods, plots), part of them hit by "
        "allocation failures or interrupts; every array, list and dictionary ever passed in is compared with its original content "
        "at simulator events inside the calls and after every call. Non-trivial: at least three calls completed or failed.")


def gen(rng, i, tier):
    c = catalog.Ctx(rng)
    zoo = mixed.Zoo(rng, pick(rng, [0, 1, 2]))
    length = pick(rng, [6, 10, 14]) if tier == "quick" else pick(rng, [8, 16, 32])
    names = None
    if maybe(rng, 0.4):
        names = [pick(rng, catalog.NAMES) for _ in range(3)]
    ops = []
    pl = pick(rng, [0.0, 0.02, 0.1, 0.4])
    faulty = maybe(rng, 0.6)
    while len(ops) < length:
        new = zoo.next(rng, pl) if zoo.objs and maybe(rng, 0.5) else [catalog.call(rng, c, names)]
        for op in new:
            if faulty and maybe(rng, 0.4) and op["m"] != "@obs" and not op.get("plot") and not op.get("keep"):
                op = dict(op, fault=fault(rng, pick(rng, ["alloc", "alloc", "interrupt"])))
            ops.append(op)
    return {"ops": ops, "novalues": True,
            "opts": {"watch": True, "probe": True, "mon": True, "gran": pick(rng, ["line", "line", "line", "instr"]),
                     "probe_every": pick(rng, [1, 2, 5])}}


def nontrivial(spec, res):
    return res["stats"].get("ops", 0) >= 3
