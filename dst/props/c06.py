"""C06: IV/IBIS results belong to the last successful analysis."""
from ..models import maybe, pick, seed
from ..models_iv import M_IBIS, M_IV
from .c02 import fault

ID = "C06"
RUNS = {"quick": 1200, "thorough": 25000}
RULE = ("Seeded histories over one or two IV/IBIS sweeps: analyses with different or incomplete offsets, reassigned data and NaN data, injected "
        "allocation failures and interrupts, plots, copies, restarts; every array ever handed out is re-checked after every step. "
        "Non-trivial: at least two analyses, or one with a fault.")


def gen(rng, i, tier):
    nobj = pick(rng, [1, 1, 2])
    objs, ops, live = [], [], set()
    for k in range(nobj):
        mo = pick(rng, [M_IBIS, M_IBIS, M_IV])
        me = mo.meta(rng)
        if k and maybe(rng, 0.5):
            me = dict(objs[0][1], seed=seed(rng))
        objs.append((mo, me))
    faulty = maybe(rng, 0.6)
    length = pick(rng, [5, 9, 14])
    lastana = {}
    while len(ops) < length:
        k = rng.randrange(nobj)
        o, (mo, me) = f"o{k}", objs[k]
        if o not in live:
            ops.append(mo.ctor(rng, me, o))
            if faulty and maybe(rng, 0.05):
                ops.append(dict(ops[-1], fault=fault(rng, pick(rng, ["alloc", "interrupt"]))))
                ops.append(dict(ops[-2]))
            live.add(o)
            continue
        r = rng.random()
        if r < 0.5:
            a = dict(lastana[o]) if o in lastana and maybe(rng, 0.25) else mo.ana(rng, me, o)
            lastana[o] = a
            if faulty and maybe(rng, 0.45):
                kind = pick(rng, ["alloc", "alloc", "interrupt"])
                ops.append(dict(a, fault=fault(rng, kind)))
                if kind == "interrupt" or maybe(rng, 0.3):
                    ops.append(dict(a))
                ops.append(mo.obs(rng, o))
            else:
                ops.append(a)
        elif r < 0.85:
            ops.append(mo.obs(rng, o))
            if mo is M_IV and maybe(rng, 0.5):
                ops.append(mo.assign(rng, me, o))
        elif r < 0.87:
            ops.append(mo.plot(rng, me, o))
        elif r < 0.9:
            ops.append({"o": o, "m": "@pickle", "how": pick(rng, ["pickle", "deepcopy"])})
        elif r < 0.93 and len(ops) > 2:
            ops.append({"m": "@restart"})
        elif r < 0.94:
            ops.append({"o": o, "m": "@del"})
            live.discard(o)
    for o in sorted(live):
        ops.append(objs[int(o[1:])][0].obs(rng, o, True))
    return {"ops": ops, "opts": {"hold": True}}


def nontrivial(spec, res):
    st = res["stats"]
    n = st.get("op:analyze", 0) + st.get("op:calc_iv", 0)
    return n >= 2 or (n and st.get("fired:alloc", 0) + st.get("fired:interrupt", 0) >= 1)
