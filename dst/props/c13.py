"""C13: nonlinear and muon-tail fits are independent of earlier fits."""
from ..models import maybe, pick, seed
from ..models_fit import M_MU, M_NL
from .c02 import fault

ID = "C13"
RUNS = {"quick": 500, "thorough": 12000}
RULE = ("Seeded histories over one to three fitter objects: fits with changing pole numbers, guesses, bounds, scaling, rejected fits, "
        "memory-starved and interrupted fits, model evaluations, plots, copies, restarts. Non-trivial: at least two fits.")


def gen(rng, i, tier):
    nobj = pick(rng, [1, 1, 2, 3])
    objs, ops, live = [], [], set()
    for k in range(nobj):
        mo = pick(rng, [M_NL, M_NL, M_MU])
        me = mo.meta(rng)
        if k and maybe(rng, 0.5):
            mo, me = objs[0][0], dict(objs[0][1])
        objs.append((mo, me))
    faulty = maybe(rng, 0.55)
    length = pick(rng, [5, 8, 12]) if tier == "quick" else pick(rng, [5, 10, 25])
    last = {}
    while len(ops) < length:
        k = rng.randrange(nobj)
        o, (mo, me) = f"o{k}", objs[k]
        if o not in live:
            ops.append(mo.ctor(rng, me, o))
            live.add(o)
            continue
        r = rng.random()
        if r < 0.5:
            op = dict(last[o]) if o in last and maybe(rng, 0.25) else mo.fitop(rng, me, o)
            last[o] = op
            if faulty and maybe(rng, 0.4):
                ops.append(dict(op, fault=fault(rng, pick(rng, ["alloc", "interrupt"]))))
                if maybe(rng, 0.6):
                    ops.append(dict(op) if maybe(rng, 0.5) else mo.fitop(rng, me, o))
            else:
                ops.append(op)
        elif r < 0.86:
            ops.append(mo.evalop(rng, me, o))
        elif r < 0.88 and mo is M_NL:
            op = mo.fitop(rng, me, o)
            op["a"]["lgcplot"] = True
            ops.append(dict(op, plot=True))
        elif r < 0.91:
            ops.append({"o": o, "m": "@pickle", "how": pick(rng, ["pickle", "deepcopy"])})
        elif r < 0.94 and len(ops) > 2:
            ops.append({"m": "@restart"})
        elif r < 0.95:
            ops.append({"o": o, "m": "@del"})
            live.discard(o)
    for o in sorted(live):
        mo, me = objs[int(o[1:])]
        ops.append(mo.fitop(rng, me, o, 0.0))
        ops += [mo.evalop(rng, me, o) for _ in range(2)]
    return {"ops": ops, "opts": {"hold": True}}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("op:fit_falltimes", 0) + st.get("op:fitmuontail", 0) >= 2
