"""C19: plotting and reading never change results, and plots show the current ones."""
from .. import boot, mixed, plots
from ..models import maybe, pick
from .c02 import fault

ID = "C19"
RUNS = {"quick": 350, "thorough": 10000}
RULE = ("Seeded histories over one to three objects interleaving analyses, plots of every kind with random options, interrupted and "
        "memory-starved plots, and reads; curves, labels and limits of every figure and every later answer are compared with a fresh "
        "object in the same state that never plotted. Non-trivial: at least one plot and one later read.")


def prepare():
    boot.warm_plots()


KINDS = ["didv", "didv", "priors", "fromdata", "iv", "ibis", "noise", "noise", "noise", "nl", "tes", "tes"]


def aplot(rng, o, objs):
    if o.kind == "nl":
        if maybe(rng, 0.5):
            return plots.plotnonlin(rng, o)
        op = o.mo.fitop(rng, o.me, o.name)
        op["a"]["lgcplot"] = True
        return dict(op, plot=True)
    if o.kind == "tes":
        return plots.noise_sim(rng, o.name)
    if o.kind == "noise" and maybe(rng, 0.25):
        ns = [x for x in objs if x.kind == "noise" and x.made]
        return plots.compare_noise(rng, [x.name for x in ns], [x.me for x in ns])
    return o.mo.plot(rng, o.me, o.name)


def gen(rng, i, tier):
    objs = []
    kinds = KINDS if maybe(rng, 0.6) else [pick(rng, KINDS)]
    for k in range(pick(rng, [1, 1, 2, 3])):
        objs.append(mixed.Obj(rng, pick(rng, kinds), f"z{k}", objs[0] if objs and maybe(rng, 0.5) else None))
    length = pick(rng, [8, 12, 16]) if tier == "quick" else pick(rng, [8, 18, 30])
    faulty = maybe(rng, 0.35)
    ops = []
    while len(ops) < length:
        o = pick(rng, objs)
        if not o.made:
            ops += o.make(rng)
            continue
        if maybe(rng, 0.3):
            op = aplot(rng, o, objs)
            if faulty and maybe(rng, 0.4):
                op = dict(op, fault=dict(fault(rng, "interrupt"), mode="any"))
            ops.append(op)
        else:
            ops.append(o.op(rng))
        if maybe(rng, 0.04):
            ops.append({"o": o.name, "m": "@pickle", "how": "pickle"})
    for o in objs:
        if o.made:
            ops += [o.op(rng) for _ in range(3)]
            if maybe(rng, 0.4):
                ops.append(aplot(rng, o, objs))
    return {"ops": ops, "opts": {"hold": True}}


def nontrivial(spec, res):
    return sum(v for k, v in res["stats"].items() if "plot" in k or "compare_noise" in k) >= 1
