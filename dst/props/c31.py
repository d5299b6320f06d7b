"""C31: repeating operations does not accumulate memory, objects or files."""
from collections import Counter

from .. import catalog, compare, engine, forkrun, mixed, runtime
from .. import boot
from ..models import maybe, pick
from .c02 import fault
from . import c10

ID = "C31"
RUNS = {"quick": 500, "thorough": 9000}
RULE = ("Seeded short workloads (stateless functions, methods of long-lived objects, objects constructed and replaced, rejected calls, "
        "calls hit by allocation failures or interrupts) repeated round after round on fresh data in one process; after every round, with "
        "the garbage collected, live numpy buffers and bytes, python objects, memory blocks, open files and threads are counted. A count "
        "growing in every late round is confirmed in a second execution of several hundred rounds, so that bounded caches pass. "
        "Non-trivial: at least one call per round returned or failed as injected.")
ROUNDS, TAIL = 10, 5
FIGS = ["open files", "threads", "open figures"]     # matplotlib's own caches grow


def prepare():
    boot.warm_plots()


def figs(rng):
    """Plots which save and close their figures."""
    o = mixed.Obj(rng, pick(rng, ["didv", "priors", "iv", "ibis"]), "z0")
    setup = o.make(rng)
    if o.kind in ("didv", "priors"):
        setup += [{"o": "z0", "m": "processtraces", "a": {}}, o.mo.fit(rng, o.me, "z0")]
    else:
        setup.append(o.mo.ana(rng, o.me, "z0"))
    op = c10.saving(rng, o, [o])
    op["a"]["savepath"]["form"] = pick(rng, ["abs", "cwd", "prefix"])
    op = {k: v for k, v in op.items() if k not in ("plot", "fs", "expect", "healthy")}
    return {"setup": setup, "body": [op], "rounds": ROUNDS, "figures": True}


def gen(rng, i, tier):
    if maybe(rng, 0.06):
        return figs(rng)
    c = catalog.Ctx(rng)
    kind = pick(rng, ["fn", "fn", "obj", "obj", "new", "mix"])
    setup, body = [], []
    n = pick(rng, [1, 2, 3, 5])
    if kind in ("obj", "mix", "new"):
        zoo = mixed.Zoo(rng, pick(rng, [1, 1, 2]))
        for o in zoo.objs:
            mk = o.make(rng)
            (body if kind == "new" else setup).extend(mk)
            for _ in range(n):
                body.append({"o": o.name, "m": "@saveload"} if o.kind == "noise" and maybe(rng, 0.15) else o.op(rng))
    if kind in ("fn", "mix"):
        for _ in range(n):
            body.append(catalog.call(rng, c, mixed.PURE))
    if maybe(rng, 0.5):
        k = pick(rng, ["alloc", "interrupt"])
        j = rng.randrange(len(body))
        body[j] = dict({x: y for x, y in body[j].items() if x != "keep"} if maybe(rng, 0.7) else body[j])
        if body[j]["m"] != "@obs" and not body[j].get("keep"):
            body[j]["fault"] = fault(rng, k)
    for op in setup + body:
        op.pop("rng", None)
    return {"setup": setup, "body": body, "rounds": ROUNDS}


def _grown(ms, tail, figures):
    for m in FIGS if figures else runtime.MEASURES:
        t = ms[m][-tail:]
        if all(b > a for a, b in zip(t, t[1:])):
            yield m


def run(spec):
    st = Counter()
    try:
        tr = engine.Tracker(spec)
        setup = engine._resolve_faults(spec["setup"], tr)
        body = engine._resolve_faults(spec["body"], tr)
        res = forkrun.call(runtime.run_rounds, setup, body, spec["rounds"], timeout=200)
        st["ops"] += res["ops"] + len(setup)
        st["events"] += res["events"]
        st["rejected"] += res["seen"].get("exc", 0) - res["seen"].get("fired", 0)
        for op in body:
            st["op:" + (op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"]))] += spec["rounds"]
            fa = op.get("fault")
            if fa and fa.get("at"):
                st["armed:" + fa["kind"]] += spec["rounds"]
                st["fired:" + fa["kind"]] += res["seen"].get("fired", 0)
                break
        sus = list(_grown(res["measures"], TAIL, spec.get("figures")))
        if res["seen"].get("exc"):      # a plot that was rejected half way leaves its figure to the caller
            sus = [m for m in sus if m != "open figures"]
        viol = None
        if sus:
            # bounded caches fill up and stop; only growth without end counts
            st["probe:suspicions examined"] += 1
            r2 = forkrun.call(runtime.run_rounds, setup, body, 80 if spec.get("figures") else 340, timeout=400)
            for m in sus:
                t = r2["measures"][m][-60:]
                steps = [b - a for a, b in zip(t, t[1:])]
                if t[-1] - t[0] >= 50 and sum(1 for d in steps if d > 0) >= 40:
                    viol = {"class": "accumulates", "op": -1, "what": m,
                            "detail": f"the number of {m} held by the process grows with every repetition", "during_fault": False}
                    break
        return {"violation": viol, "stats": dict(st), "digest": compare.digest([res["setup"], sorted(res["seen"].items()), bool(viol)]),
                "seen": res["seen"], "sig": ""}
    except forkrun.ChildFailure as e:
        return {"harness": e.kind, "detail": e.detail, "violation": None, "stats": {}, "digest": "harness"}


def reductions(spec):
    for k in ("body", "setup"):
        n = len(spec[k])
        for i in range(n):
            c = dict(spec)
            c[k] = spec[k][:i] + spec[k][i + 1:]
            if c["body"]:
                yield c
    for i, op in enumerate(spec["body"]):
        if op.get("fault"):
            c = dict(spec)
            c["body"] = list(spec["body"])
            c["body"][i] = {x: y for x, y in op.items() if x != "fault"}
            yield c


def nontrivial(spec, res):
    s = res.get("seen", {})
    return s.get("ok", 0) + s.get("fired", 0) >= spec["rounds"]
