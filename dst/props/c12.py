"""C12: library calls leave process-wide state alone, also when they fail."""
from .. import boot, catalog, mixed, plots
from ..models import maybe, pick, seed
from .c02 import fault
from .c10 import saving

ID = "C12"
RUNS = {"quick": 1800, "thorough": 40000}
SAVES = ("iv", "ibis", "noise", "didv", "priors", "tes")
RULE = ("Seeded sequences of calls of every public function and class including plots, part of them rejected or hit by allocation "
        "failures or interrupts, under varied caller settings (error handling, seeds, print options, directory); process-wide state "
        "is compared before and after every call. Non-trivial: at least three calls.")


def prepare():
    boot.warm_plots()


def to_file(rng, o, objs):
    """Plot which saves its figure, where that works or does not."""
    op = saving(rng, o, objs)
    if op is None or "fsdir" in op:
        return []
    k = "figsavepath" if "figsavepath" in op["a"] else "savepath"
    pre = {"prefix": "run 2_", "dotted": "run 2.5_", "none": "none/"}.get(op["a"][k]["form"], "")
    d = {"$": "outdir", "d": pick(rng, ["s0", "s1"]), "pre": pre}
    if maybe(rng, 0.5) and pre != "none/":
        d.update(d="t" + str(rng.randrange(1 << 20)), taken=[pick(rng, op["expect"])])
    op["a"][k] = d
    return [{x: v for x, v in op.items() if x not in ("fs", "expect", "healthy")}]


def gen(rng, i, tier):
    c = catalog.Ctx(rng)
    kinds = None if maybe(rng, 0.7) else ["noise", "iv", "ibis", "didv", "nl", "tes"]
    zoo = mixed.Zoo(rng, pick(rng, [0, 1, 2, 3]), kinds)
    pl = pick(rng, [0.0, 0.05, 0.25])
    psave = pick(rng, [0.0, 0.0, 0.3])
    length = pick(rng, [6, 10, 14]) if tier == "quick" else pick(rng, [8, 16, 32])
    names = [pick(rng, catalog.NAMES) for _ in range(3)] if maybe(rng, 0.4) else None
    faulty = maybe(rng, 0.6)
    ops = []
    while len(ops) < length:
        if zoo.objs and maybe(rng, 0.55):
            o = pick(rng, zoo.objs)
            if o.made and o.kind in SAVES and maybe(rng, psave):
                new = to_file(rng, o, zoo.objs)
            elif o.made and o.kind == "tes" and maybe(rng, pl):
                new = [plots.noise_sim(rng, o.name)]
            elif o.made and o.kind == "noise" and maybe(rng, pl / 3):
                new = [plots.compare_noise(rng, [o.name], [o.me])]
            else:
                new = zoo.next(rng, pl)
        else:
            new = [catalog.call(rng, c, names)]
        for op in new:
            if faulty and maybe(rng, 0.45) and op["m"] != "@obs" and not op.get("keep"):
                op = dict(op, fault=fault(rng, pick(rng, ["alloc", "interrupt"]) if not op.get("plot") else "interrupt"))
            ops.append(op)
    env = {"npseed": rng.randrange(1 << 31), "pyseed": rng.randrange(1 << 31),
           "err": pick(rng, [None, None, {"all": "ignore"}, {"divide": "ignore", "over": "warn"}]),
           "precision": pick(rng, [8, 8, 3]), "rc": pick(rng, [{}, {}, {"lines.linewidth": 3.0, "axes.grid": True}])}
    return {"ops": ops, "novalues": True, "opts": {"gstate": True, "env": env}}


def nontrivial(spec, res):
    return res["stats"].get("ops", 0) >= 3
