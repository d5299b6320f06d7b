"""C16: calls and objects do not influence each other, across threads too."""
from .. import catalog, mixed
from ..models import maybe, pick
from .c02 import fault
from .c03 import sched

ID = "C16"
RUNS = {"quick": 900, "thorough": 18000}
RULE = ("Seeded mixed histories of stateless functions (with repeated, permuted and slightly changed arguments) and several objects "
        "of the same and different classes, sequentially with failures in between, or in two or three threads each on its own data "
        "under a seeded schedule; every result is compared with the same call alone in a fresh process. Non-trivial: at least four "
        "calls; threaded runs at least one preemption.")


def gen(rng, i, tier):
    c = catalog.Ctx(rng)
    if maybe(rng, 0.35):
        return threaded(rng, c)
    zoo = mixed.Zoo(rng, pick(rng, [0, 2, 3, 4]))
    length = pick(rng, [8, 12, 18]) if tier == "quick" else pick(rng, [8, 20, 40])
    names = None
    if maybe(rng, 0.6):
        names = [pick(rng, mixed.PURE) for _ in range(pick(rng, [1, 2, 4]))]
    share = pick(rng, [0.3, 0.7])
    faulty, scrib = maybe(rng, 0.3), maybe(rng, 0.5)
    ops, calls = [], []
    while len(ops) < length:
        new = zoo.next(rng) if zoo.objs and not maybe(rng, share) else [catalog.call(rng, c, names or mixed.PURE)]
        if zoo.objs and maybe(rng, 0.03):
            new = zoo.drop(rng)
        if calls and maybe(rng, 0.2):
            new = [catalog.vary(rng, pick(rng, calls))]
        for op in new:
            op.pop("rng", None)
            if op["m"] == "@fn" and not op.get("keep"):
                calls.append({k: v for k, v in op.items() if k not in ("fault", "scribble")})
            if faulty and maybe(rng, 0.3) and op["m"] == "@fn" and not op.get("keep"):
                op = dict(op, fault=fault(rng, pick(rng, ["alloc", "interrupt"])))
            if op["m"] == "@fn" and scrib and maybe(rng, 0.5):
                op = dict(op, scribble=True)
            ops.append(op)
    return {"ops": ops, "opts": {"hold": True}}


def own(v, t):
    """Every thread has its own buffers."""
    if isinstance(v, dict):
        return {k: f"{t}/{x}" if k == "k" and v.get("$") == "inbuf" else own(x, t) for k, x in v.items()}
    return [own(x, t) for x in v] if isinstance(v, list) else v


def threaded(rng, c):
    n = pick(rng, [2, 2, 3])
    pre, ths, slow = [], [], False
    kinds = [pick(rng, mixed.WEIGHTED)] if maybe(rng, 0.5) else None
    names = [pick(rng, mixed.FAST) for _ in range(pick(rng, [1, 2]))] if maybe(rng, 0.6) else mixed.FAST
    base = None
    for t in range(n):
        ops = []
        o = None
        if maybe(rng, 0.7):
            o = mixed.Obj(rng, base.kind if base and maybe(rng, 0.6) else pick(rng, kinds or mixed.WEIGHTED), f"t{t}", base)
            base = base or o
            slow = slow or o.kind in ("didv", "priors", "fromdata", "nl", "mu", "nsmb")
            mk = own(o.make(rng), t)
            if o.kind == "nsmb" or maybe(rng, 0.5):
                pre += mk
            else:
                ops += mk
        for _ in range(pick(rng, [2, 3, 4])):
            op = o.op(rng) if o and maybe(rng, 0.6) else catalog.call(rng, c, names)
            op.pop("rng", None)
            op.pop("stdout", None)
            ops.append(own(op, t))
        ths.append(ops)
    sc = sched(rng, n, 300)
    if slow:
        sc["gran"] = "line"
    return {"pre": pre, "threads": ths, "sched": sc, "opts": {"hold": True}}


def nontrivial(spec, res):
    return res["stats"].get("ops", 0) >= 4 and (not spec.get("threads") or res["stats"].get("preemptions", 0) >= 1)
