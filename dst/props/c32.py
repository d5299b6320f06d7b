"""C32: a call that runs out of memory or is interrupted raises or is right."""
from .. import catalog, mixed
from ..models import maybe, pick
from .c02 import fault

ID = "C32"
RUNS = {"quick": 1900, "thorough": 16000}
RULE = ("Seeded sequences of numerical calls (every stateless function, and methods of every class) in which most calls are hit by an "
        "allocation failure (one or all from a point on) or an interrupt at a seeded point, each followed at once or later by the same "
        "call undisturbed. A disturbed call must raise (an interrupt as KeyboardInterrupt) or return the value of the undisturbed call in "
        "a fresh process; the repetition must return that value. Non-trivial: at least one fault fired.")


def gen(rng, i, tier):
    c = catalog.Ctx(rng)
    if maybe(rng, 0.5):
        return objects(rng, c, tier)
    ops, later = [], []
    length = pick(rng, [4, 8, 12]) if tier == "quick" else pick(rng, [8, 16, 32])
    names = [pick(rng, mixed.PURE) for _ in range(pick(rng, [1, 2, 4]))] if maybe(rng, 0.7) else mixed.PURE
    kind = pick(rng, ["alloc", "interrupt", None])
    while len(ops) < length:
        op = catalog.call(rng, c, names)
        op.pop("rng", None)
        if maybe(rng, 0.15):
            ops.append(op)
            continue
        for _ in range(pick(rng, [1, 1, 2, 3])):
            ops.append(dict(op, fault=fault(rng, kind or pick(rng, ["alloc", "interrupt"]))))
        if maybe(rng, 0.6):
            ops.append(op)
        else:
            later.append(op)
    return {"ops": ops + later, "strict": True, "opts": {"hold": True}}


def objects(rng, c, tier):
    kinds = None if maybe(rng, 0.4) else [pick(rng, ["nl", "nl", "nl", "mu", "mu", "didv", "priors", "fromdata", "iv", "iv", "ibis", "noise"])]
    zoo = mixed.Zoo(rng, pick(rng, [1, 1, 2, 3]), kinds)
    ops = []
    length = pick(rng, [6, 10, 14]) if tier == "quick" else pick(rng, [8, 20, 40])
    kind = pick(rng, ["alloc", "alloc", "interrupt", None])
    look = maybe(rng, 0.6)
    many = pick(rng, [1, 1, 3, 5])
    while len(ops) < length:
        for op in zoo.next(rng) if maybe(rng, 0.85) else [catalog.call(rng, c, mixed.PURE)]:
            op.pop("rng", None)
            if maybe(rng, 0.6) and op["m"] != "@obs" and not op.get("keep"):
                for _ in range(rng.randrange(1, many + 1)):
                    ops.append(dict(op, fault=fault(rng, kind or pick(rng, ["alloc", "interrupt"]))))
                    # what a call which returned although disturbed left in the object
                    if look and op["m"] != "@new" and "o" in op:
                        o = next(x for x in zoo.objs if x.name == op["o"])
                        ops += mixed.observe(rng, o)
                # a failed construction leaves no object: construct once more
                if op["m"] != "@new" and maybe(rng, 0.4):
                    continue
            ops.append(op)
    return {"ops": ops, "strict": True, "opts": {"hold": True}}


def nontrivial(spec, res):
    return any(k.startswith("fired:") for k in res["stats"])
