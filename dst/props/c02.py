"""C02: a failed or interrupted optimum-filter operation leaves a usable filter."""
from ..models import M_OF, maybe, pick, seed

ID = "C02"
RUNS = {"quick": 1500, "thorough": 30000}
TECHNIQUE = "deterministic simulation with allocation-failure and interrupt injection"


def fault(rng, kind):
    f = {"kind": kind, "u": rng.random(), "mode": pick(rng, ["any", "line", "line", "tail"])}
    if kind == "alloc":
        f["persist"] = maybe(rng, 0.3)
        f["min"] = pick(rng, [0, 0, 64, 512])
    return f


def gen(rng, i, tier):
    me = M_OF.meta(rng)
    ops = [M_OF.ctor(rng, me, "o0")]
    kinds = pick(rng, [["alloc"], ["alloc"], ["interrupt"], ["alloc", "interrupt"]])
    nfault = pick(rng, [1, 1, 2, 3])
    length = pick(rng, [6, 10, 16])
    warm = rng.randrange(0, 5)
    for _ in range(warm):
        ops.append(M_OF.query(rng, me, "o0"))
    for _ in range(nfault):
        k = pick(rng, kinds)
        r = rng.random()
        if r < 0.45:
            u = M_OF.update(rng, me, "o0")
            ops.append(dict(u, fault=fault(rng, k)))
            if k == "interrupt":
                if maybe(rng, 0.5):
                    ops.append(dict(u))
                else:
                    ops.append(M_OF.update(rng, me, "o0"))
            elif maybe(rng, 0.3):
                ops.append(dict(u))
        elif r < 0.95:
            if maybe(rng, 0.5):      # nothing computed yet
                ops.append(M_OF.update(rng, me, "o0"))
            q = M_OF.query(rng, me, "o0")
            ops.append(dict(q, fault=fault(rng, k)))
            if maybe(rng, 0.6):
                ops.append(dict(q))
        else:
            c = M_OF.ctor(rng, me, "o0")
            ops.append(dict(c, fault=fault(rng, k)))
            ops.append(M_OF.ctor(rng, me, "o0"))
        for _ in range(rng.randrange(1, 5)):
            ops.append(M_OF.query(rng, me, "o0") if maybe(rng, 0.85) else M_OF.update(rng, me, "o0"))
    ops += M_OF.observe_all(rng, me, "o0")[:pick(rng, [3, 6, 10])]
    return {"ops": ops}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("fired:alloc", 0) + st.get("fired:interrupt", 0) >= 1
