"""C17: objects survive being saved and restored or copied at any point."""
from .. import boot, mixed
from ..models import maybe, pick
from .c02 import fault

ID = "C17"
RUNS = {"quick": 420, "thorough": 12000}
RULE = ("Seeded histories over one or two objects of any class, cut at random points by pickling (all protocols), deep copies, "
        "save/load through a file and process restarts; copies and originals go on independently, partly after failed operations; "
        "every answer is compared with a fresh object that was never copied. Non-trivial: at least one copy or restart and two later "
        "operations.")


def prepare():
    boot.warm_plots()


KINDS = ["of", "of", "didv", "priors", "fromdata", "iv", "ibis", "noise", "noise", "nl", "mu", "tes"]


def gen(rng, i, tier):
    objs = []
    for k in range(pick(rng, [1, 1, 2])):
        like = objs[0] if objs and maybe(rng, 0.4) else None
        objs.append(mixed.Obj(rng, like.kind if like else pick(rng, KINDS), f"z{k}", like))
    length = pick(rng, [8, 12, 16]) if tier == "quick" else pick(rng, [8, 18, 34])
    faulty = maybe(rng, 0.25)
    ops, nc = [], 0
    names = [(o, o.name) for o in objs]         # (object, current name); copies share the workload metadata
    while len(ops) < length:
        o, nm = pick(rng, names)
        if not o.made:
            ops += o.make(rng)
            continue
        r = rng.random()
        if r < 0.10:
            ops.append({"o": nm, "m": "@pickle", "how": pick(rng, ["pickle", "pickle", "deepcopy"]), "proto": pick(rng, [2, 3, 4, 5])})
        elif r < 0.22 and nc < 4:
            nc += 1
            c = f"c{nc}"
            ops.append({"o": c, "src": nm, "m": "@copy", "how": pick(rng, ["pickle", "deepcopy"]), "proto": pick(rng, [2, 4, 5])})
            names.append((o, c))
            # the same operation on both, in either order
            op = o.op(rng, 0.03)
            pair = [dict(op, o=nm), dict(op, o=c)]
            rng.shuffle(pair)
            ops += pair
        elif r < 0.30 and len(ops) > 1:
            ops.append({"m": "@restart"})
        elif r < 0.34 and o.kind == "noise":
            ops.append({"o": nm, "m": "@saveload"})
        else:
            op = dict(o.op(rng, 0.03), o=nm)
            if faulty and maybe(rng, 0.3) and op["m"] != "@obs" and not op.get("plot"):
                op["fault"] = fault(rng, pick(rng, ["alloc", "interrupt"]))
            ops.append(op)
    if maybe(rng, 0.7):
        ops.append({"m": "@restart"})
    for o, nm in names:
        if o.made:
            ops += [dict(o.op(rng), o=nm) for _ in range(2)]
    return {"ops": ops, "opts": {"hold": True}}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("op:@copy", 0) + st.get("op:@pickle", 0) + st.get("op:@saveload", 0) + st.get("restarts", 0) >= 1
