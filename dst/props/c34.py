"""C34: how and where the caller's arrays are stored makes no difference."""
from .. import catalog, data, mixed
from ..models import maybe, pick

ID = "C34"
RUNS = {"quick": 1200, "thorough": 20000}
RULE = ("Seeded mixed histories of objects and stateless functions in which array arguments are stored in different ways (read-only, "
        "memory-mapped file, part of a larger array, strided, reversed, column-major, other byte order, unaligned); every result is "
        "compared with the same call on plain arrays in a fresh process. Non-trivial: at least three calls with an array stored "
        "otherwise.")
PLAIN = {"tuple", "slice", "inf", "nan", "np", "obj", "objs", "keep", "inbuf", "fsdir", "objarr", "stored"}


def store(v, rng, p, hows, key=None):
    """Stores some of the arrays among the arguments otherwise."""
    if isinstance(v, dict):
        if "$" in v:
            if v["$"] in ("tuple", "objarr"):
                return dict(v, v=[store(x, rng, p, hows) for x in v["v"]])
            if v["$"] == "inbuf":
                return store(v["val"], rng, p, hows)
            if v["$"] in PLAIN or v.get("as") in ("list", "int", "bool") or not maybe(rng, p):
                return v
            return {"$": "stored", "of": {k: x for k, x in v.items() if k != "as"} if v.get("as") in ("strided", "fortran") else v,
                    "how": pick(rng, hows)}
        return {k: store(x, rng, p, hows, k) for k, x in v.items()}
    if isinstance(v, list):
        return [store(x, rng, p, hows) for x in v]
    return v


def gen(rng, i, tier):
    c = catalog.Ctx(rng)
    zoo = mixed.Zoo(rng, pick(rng, [0, 1, 2, 3]))
    names = [pick(rng, mixed.PURE) for _ in range(pick(rng, [1, 2, 4]))] if maybe(rng, 0.6) else mixed.PURE
    length = pick(rng, [6, 10, 14]) if tier == "quick" else pick(rng, [8, 20, 40])
    hows = data.STORAGE if maybe(rng, 0.5) else [pick(rng, data.STORAGE) for _ in range(2)]
    p = pick(rng, [0.4, 0.8, 1.0])
    share = pick(rng, [0.4, 0.8])
    ops = []
    while len(ops) < length:
        for op in zoo.next(rng) if zoo.objs and maybe(rng, share) else [catalog.call(rng, c, names)]:
            op.pop("rng", None)
            if not op.get("mutates"):
                op["a"] = store(op.get("a", {}), rng, p, hows)
                op["pa"] = store(op.get("pa", []), rng, p, hows)
            ops.append(op)
    return {"ops": ops, "opts": {"hold": True}}


def nontrivial(spec, res):
    return sum('"stored"' in repr(op).replace("'", '"') for op in spec["ops"]) >= 3
