"""C01: optimum-filter answers depend only on construction, current trace, arguments."""
from ..models import M_OF, maybe, pick, seed

ID = "C01"
RUNS = {"quick": 1500, "thorough": 30000}
TECHNIQUE = "deterministic simulation: seeded call histories vs pristine-process oracle"


def gen(rng, i, tier):
    nobj = pick(rng, [1, 1, 2, 3])
    metas, ops = [], []
    for k in range(nobj):
        me = M_OF.meta(rng)
        if k and maybe(rng, 0.5):          # same geometry as another object: collisions
            me = dict(metas[0])
            if maybe(rng, 0.5):
                me["coupling"] = pick(rng, ["AC", "DC"])
        metas.append(me)
    live = set()
    length = pick(rng, [6, 10, 14, 20, 30]) if tier == "quick" else pick(rng, [6, 12, 20, 40, 80])
    pq = pick(rng, [0.5, 0.7, 0.85])
    last = {}
    while len(ops) < length:
        k = rng.randrange(nobj)
        o, me = f"o{k}", metas[k]
        if o not in live:
            ops.append(M_OF.ctor(rng, me, o))
            live.add(o)
            continue
        r = rng.random()
        if r < pq:
            if o in last and maybe(rng, 0.2):
                ops.append(dict(last[o]))          # identical query again
            else:
                q = M_OF.query(rng, me, o)
                last[o] = q
                ops.append(q)
        elif r < 0.94:
            ops.append(M_OF.update(rng, me, o))
        elif r < 0.96:
            ops.append({"m": "@scribble", "k": rng.randrange(2), "seed": seed(rng), "sigma": me["sig"]})
        elif r < 0.97:
            ops.append({"o": o, "m": "@pickle", "how": pick(rng, ["pickle", "deepcopy"])})
        elif r < 0.985 and len(ops) > 2:
            ops.append({"m": "@restart"})
        else:
            ops.append({"o": o, "m": "@del"})
            live.discard(o)
    for k in range(nobj):
        if f"o{k}" in live and maybe(rng, 0.5):
            ops += M_OF.observe_all(rng, metas[k], f"o{k}")[:pick(rng, [2, 5, 10])]
    return {"ops": ops}


def nontrivial(spec, res):
    st = res["stats"]
    return st.get("op:update_signal", 0) >= 1 and st["ops"] >= 5
