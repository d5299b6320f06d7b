"""C33: order of arrival, repetition and broken channels do not matter to the rest."""
import copy

from .. import catalog, compare, forkrun, runtime
from ..models import maybe, pick, seed
from ..models_didv import M_DIDV, M_PRIORS
from ..models_iv import M_IBIS, M_IV
from ..models_noise import CALC, GROUPS, M_NOISE

ID = "C33"
RUNS = {"quick": 3000, "thorough": 30000}
RULE = ("Seeded histories executed twice in pristine processes: on the original data, and on the same data delivered differently "
        "(traces, channels, bath temperatures, sweep points or frequencies in another order, all traces delivered twice, some rows or "
        "channels missing, one channel or trace broken: NaN, inf, stuck, zero, saturated). Ensemble quantities must agree, per-item "
        "quantities must follow their item, items other than the broken one must be unchanged. Non-trivial: at least one quantity compared.")
STUBS = "delivery of the data (order, repetition, loss, broken channels); numpy data allocator"
RTOL = 2e-6


def perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


def some(rng, n):
    """A proper, possibly reordered part of n items."""
    p = perm(rng, n)
    return p[:rng.randrange(1, n)] if n > 1 else p


class Delivery:
    """What happens to each axis: order of the items (possibly a part, possibly with
    repetitions) and broken items."""

    def __init__(self, axes, bad=()):
        self.axes = {k: v for k, v in axes.items() if v is not None}
        self.bad = list(bad)

    def arr(self, r, axes, bad=False):
        """Recipe of an array having the named axes (None: an axis that is left alone)."""
        take = [[i, self.axes[a]] for i, a in enumerate(axes) if a in self.axes]
        return {"$": "arrive", "of": r, "take": take, "bad": self.bad if bad else []} if take or bad and self.bad else r


def entry(i, path=(), axes=(), skip=None, rtol=RTOL):
    """Quantity `path` of the outcome of operation i; its axes; items of an axis not to look at."""
    return {"op": i, "path": list(path), "axes": list(axes), "skip": skip or {}, "rtol": rtol}


# -- workloads -----------------------------------------------------------------
def noise(rng):
    me = M_NOISE.meta(rng)
    nt, nc, n = me["shape"]
    nc = me["shape"][1] = max(nc, 2)
    if maybe(rng, 0.3):
        nc = me["shape"][1] = 3
    base = M_NOISE.ctor(rng, me, "x")
    how = pick(rng, ["order", "order", "twice", "chans", "missing", "broken"])
    ax, bad, skip = {}, [], {}
    if how == "order" or maybe(rng, 0.3):
        ax["t"] = perm(rng, nt)
    if how == "twice":
        ax["t"] = perm(rng, nt) * 2
        rng.shuffle(ax["t"])
    if how == "chans" or maybe(rng, 0.2):
        ax["c"] = perm(rng, nc)
    if how == "missing":
        ax["c"] = some(rng, nc)
    if how == "broken":
        k = rng.randrange(nc)
        bad = [[[None if maybe(rng, 0.5) else rng.randrange(nt), k, None if maybe(rng, 0.7) else rng.randrange(n)], pick(rng, ["nan", "inf", "zero", "stuck", "huge", "neg"])]]
        skip = {"c": [k]}
    d = Delivery(ax, bad)
    var = dict(base, a=dict(base["a"]))
    var["a"]["traces"] = d.arr(base["a"]["traces"], "tcn", True)
    if "c" in ax:
        var["a"]["channames"] = [base["a"]["channames"][k] for k in ax["c"]]
    whole = how not in ("missing", "broken")
    ops = []
    for _ in range(pick(rng, [2, 3, 4])):
        r = rng.random()
        m = "remove_trace_slope" if r < 0.2 else CALC[pick(rng, ["psd", "cc", "csd", "csd"] + (["unc"] if whole else []))]
        ops.append({"o": "x", "m": m, "a": {}})
    tell = []
    A = {"psd": "c", "cc": "cc", "csd": "cc", "unc": "c"}
    last = [{"o": "x", "m": "@obs", "attrs": [a for g in A for a in GROUPS[g]] + ["freqs", "traces"]}]
    i = 1 + len(ops)
    for g, axes in A.items():
        if g == "unc" and not whole:
            continue
        for a in GROUPS[g]:
            tell.append(entry(i, [a], axes, skip))
    tell.append(entry(i, ["freqs"]))
    if how != "twice":
        tell.append(entry(i, ["traces"], "tc", skip))
    return [base] + ops + last, [var] + ops + last, tell, how, d


def sweep(rng):
    M = pick(rng, [M_IV, M_IBIS])
    me = M.meta(rng)
    if me["shape"][:2] == [1, 1]:
        me["shape"][pick(rng, [0, 1])] = 2
    nt, nc, n = me["shape"]
    base = M.ctor(rng, me, "x")
    a = base["a"]
    a.pop("nans", None)
    a["dites"].pop("nans", None)
    for k, v in list(a.items()):     # different values for every channel
        if isinstance(v, dict) and v.get("$") == "full" and len(v["shape"]) < 3:
            size = nt * nc if len(v["shape"]) == 2 else nc
            vals = [v["v"] * (1 + 0.1 * j) for j in range(size)]
            a[k] = {"$": "arr", "v": [vals[j * nc:(j + 1) * nc] for j in range(nt)] if len(v["shape"]) == 2 else vals}
    for k in ("dites_err", "ibias_err", "vb_err"):
        if k in a and a[k]["v"]:
            a[k] = {"$": "noise", "shape": me["shape"], "seed": seed(rng), "mean": a[k]["v"], "sigma": 0.1 * a[k]["v"]}
    how = pick(rng, ["order", "order", "missing", "broken", "broken"])
    ax, bad, skip = {}, [], {}
    if how == "order":
        ax = {"t": perm(rng, nt), "c": perm(rng, nc)}
    elif how == "missing":
        ax = {"t": some(rng, nt) if maybe(rng, 0.5) else None, "c": some(rng, nc) if maybe(rng, 0.7) else None}
    else:
        if nc > 1 and (nt == 1 or maybe(rng, 0.6)):
            ix, skip = [None, rng.randrange(nc)], "c"
        else:
            ix, skip = [rng.randrange(nt), None], "t"
        skip = {skip: [x for x in ix if x is not None]}
        h = pick(rng, ["nan", "inf", "zero", "stuck", "huge", "neg"])
        # NaN where the straight parts are fitted is rejected; elsewhere it is not
        bad = [[ix + ([rng.randrange(5, n - 3)] if h in ("nan", "inf") else [None]), h]]
    d = Delivery(ax, bad)
    ops, vops = [], []
    var = dict(base, a=dict(a))
    for k in a:
        v = a[k]
        if isinstance(v, dict) and v.get("$") in ("sweep", "noise", "full"):
            var["a"][k] = d.arr(v, "tcn", k == "dites")
        elif isinstance(v, dict) and v.get("$") == "arr":
            var["a"][k] = d.arr(v, "tc" if isinstance(v["v"][0], list) else "c")
    if "c" in d.axes:
        var["a"]["chan_names"] = [a["chan_names"][k] for k in d.axes["c"]]
    for _ in range(pick(rng, [1, 1, 2])):
        op = M.ana(rng, me, "x")
        op = dict(op, a={k: {"$": "noise", "shape": me["shape"], "seed": seed(rng), "mean": v["v"], "sigma": 0.1 * abs(v["v"])} for k, v in op["a"].items()})
        ops.append(op)
        vops.append(dict(op, a={k: d.arr(v, "tcn") for k, v in op["a"].items()}))
    last = [{"o": "x", "m": "@obs", "attrs": list(M.attrs)}]
    tell = [entry(1 + len(ops), [k], "tc", skip) for k in M.attrs]
    return [base] + ops + last, [var] + vops + last, tell, how, d


def didv(rng):
    M = pick(rng, [M_DIDV, M_DIDV, M_PRIORS])
    me = M.meta(rng)
    nt = me["nt"]
    base = M.ctor(rng, me, "x")
    base["a"]["rawtraces"].pop("as", None)
    how = pick(rng, ["order", "order", "broken"])
    bad = []
    if how == "broken":
        # a broken trace is left out
        k = rng.randrange(nt)
        var = dict(base, a=dict(base["a"]))
        var["a"]["rawtraces"] = {"$": "arrive", "of": base["a"]["rawtraces"], "take": [], "bad": [[[k, None], "nan"]] if maybe(rng, 0.5)
                                 else [[[k, rng.randrange(50)], "nan"]]}
        keep = [j for j in range(nt) if j != k]
        base = dict(base, a=dict(base["a"], rawtraces={"$": "arrive", "of": base["a"]["rawtraces"], "take": [[0, keep]]}))
        d = Delivery({})
    else:
        d = Delivery({"t": perm(rng, nt)})
        var = dict(base, a=dict(base["a"], rawtraces=d.arr(base["a"]["rawtraces"], "t")))
    ops = [{"o": "x", "m": "processtraces", "a": {}}]
    if maybe(rng, 0.4):
        ops.append(dict(M.fit(rng, me, "x", pick(rng, [1, 2]))))
    at = ["_tmean", "_offset", "_offset_err", "_didvmean", "_didvstd", "_freq", "_time", "_ntraces", "_flatinds", "_zeroinds"]
    last = [{"o": "x", "m": "@obs", "attrs": at + ["_traces"]}]
    tell = [entry(1 + len(ops), [k]) for k in at] + [entry(1 + len(ops), ["_traces"], "t")]
    return [base] + ops + last, [var] + ops + last, tell, how, d


CUTS = ["removeoutliers", "iterstat", "itercov", "pileupcut", "slopecut", "baselinecut", "chi2cut", "autocuts", "get_muon_cut"]
ROWS = ["lowpassfilter", "energy_absorbed", "resample_data", "calc_offset", "calc_psd", "stdcomplex", "of_nsmb_getiP",
        "compleximpedance", "complexadmittance", "powertrace_simple"]


def plain(rng, c, name, ok):
    """A call of this function on plain data."""
    for _ in range(200):
        op = catalog.CAT[name][0](rng, c)
        s = repr(op)
        if "'twin'" not in s and "'as'" not in s and "nonsense" not in s and "const" not in s and ok(op):
            for k in ("rng", "stochastic"):
                op.pop(k, None)
            return op
    return None


def function(rng):
    c = catalog.Ctx(rng, 0)
    name = pick(rng, CUTS + ROWS)
    two = lambda op: len(op["pa"][0].get("shape", [1])) == 2
    ok = {"lowpassfilter": two, "energy_absorbed": two, "calc_psd": two, "resample_data": lambda op: op["a"].get("axis", -1) == -1,
          "slopecut": lambda op: not op["a"].get("symmetrizeflag"), "autocuts": lambda op: not op["a"].get("symmetrizeflag"),
          "stdcomplex": lambda op: op["a"].get("axis", 0) == 0}.get(name, lambda op: True)
    op = plain(rng, c, name, ok)
    r = op["pa"][0]
    if name in ("lowpassfilter", "energy_absorbed", "calc_psd", "resample_data"):
        r = op["pa"][0] = dict(r, shape=[pick(rng, [2, 3, 6]), c.n])
    how, skip, bad = "order", {}, []
    if name in CUTS:
        n = r["shape"][0] if "shape" in r else r.get("nt", r.get("n"))
        per = name == "get_muon_cut"
        if per:
            how = pick(rng, ["order", "missing", "broken"])
        if how == "broken":
            k = rng.randrange(n)
            skip, bad = {"t": [k]}, [[[k, None], pick(rng, ["nan", "zero", "stuck", "huge"])]]
        d = Delivery({"t": None if how == "broken" else some(rng, n) if how == "missing" else perm(rng, n)}, bad)
        if name == "itercov" and len(op["pa"]) > 1:
            var = dict(op, pa=[d.arr(x, "t") for x in op["pa"]])
        else:
            var = dict(op, pa=[d.arr(r, "t", True)] + op["pa"][1:])
        tell = {"iterstat": [entry(0, [0]), entry(0, [1]), entry(0, [2], "t")],
                "itercov": [entry(0, [0]), entry(0, [1]), entry(0, [2], "t")]}.get(name, [entry(0, [], "t", skip)])
        if op["a"].get("return_unbiased_estimates"):      # a root finder which need not converge
            tell = tell[2:]
        return [op], [var], tell, how, d
    if name == "calc_offset":
        nt, nc, n = r["shape"]
        how = pick(rng, ["order", "chans", "missing", "broken", "twice"])
        if how == "broken":
            k = rng.randrange(nc)
            skip, bad = {"c": [k]}, [[[None if maybe(rng, 0.5) else rng.randrange(nt), k, None], "nan"]]
        d = Delivery({"t": perm(rng, nt), "c": {"chans": perm(rng, nc), "missing": some(rng, nc)}.get(how)}, bad)
        tell = [entry(0, [0], "c", skip), entry(0, [1], "c", skip)]
        if how == "twice":
            d.axes["t"] = d.axes["t"] * 2
            tell = tell[:1]
        return [op], [dict(op, pa=[d.arr(r, "tcn", True)])], tell, how, d
    if name in ("calc_psd", "stdcomplex"):
        how = pick(rng, ["order", "twice"])
        d = Delivery({"t": perm(rng, r["shape"][0]) * (2 if how == "twice" else 1)})
        tell = [entry(0, [0]), entry(0, [1])] if name == "calc_psd" else [entry(0)]
        return [op], [dict(op, pa=[d.arr(r, "t")] + op["pa"][1:])], tell, how, d
    how = pick(rng, ["order", "missing", "broken"])
    if name == "of_nsmb_getiP":
        ax, n, pre = "..f", r["shape"][2], [None, None]
    elif name in ("compleximpedance", "complexadmittance"):
        ax, n, pre = "f", r["n"], []
    elif name == "powertrace_simple":
        ax, n, pre = "f", r["shape"][0], []
    else:
        ax, n, pre = "f", r["shape"][0], []
    if how == "broken":
        k = rng.randrange(n)
        skip, bad = {"f": [k]}, [[pre + [k], pick(rng, ["nan", "huge", "neg"]) if name != "of_nsmb_getiP" else "huge"]]
    d = Delivery({"f": None if how == "broken" else some(rng, n) if how == "missing" else perm(rng, n)}, bad)
    var = dict(op, pa=[d.arr(r, ax, True)] + op["pa"][1:])
    tell = [entry(0, [0], "f", skip), entry(0, [1])] if name == "resample_data" else [entry(0, [], ax, skip)]
    if name == "energy_absorbed" and isinstance(op["a"].get("baseline"), float) and maybe(rng, 0.5):
        b = {"$": "noise", "shape": [n, 1], "seed": seed(rng), "sigma": 1e-7}
        op = dict(op, a=dict(op["a"], baseline=b))
        var = dict(var, a=dict(var["a"], baseline=d.arr(b, ax)))
    return [op], [var], tell, how, d


def gen(rng, i, tier):
    kind = pick(rng, [noise, noise, sweep, sweep, didv, function, function])
    base, var, tell, how, d = kind(rng)
    return {"ops": base, "var": var, "tell": tell, "how": how, "kind": kind.__name__, "orders": d.axes}


# -- relation ------------------------------------------------------------------
def _get(v, path):
    for k in path:
        v = v[k]
    return v


def run(spec):
    import numpy as np
    try:
        b = forkrun.call(runtime.run_segment, spec["ops"], None, {}, False, False)
        w = forkrun.call(runtime.run_segment, spec["var"], None, {}, False, False)
    except forkrun.ChildFailure as e:
        return {"harness": e.kind, "detail": e.detail, "violation": None, "stats": {}, "digest": "harness"}
    bo, vo = b["outs"], w["outs"]
    st = {"ops": len(bo) + len(vo), "delivery:" + spec["how"]: 1, "fired:" + NAMES[spec["how"]]: 1}
    for op in spec["ops"]:
        k = "op:" + (op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"]))
        st[k] = st.get(k, 0) + 2
    viol, n = None, 0

    def bad(i, cls, detail):
        op = spec["ops"][i]
        what = op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"])
        return {"class": cls, "op": i, "what": what, "detail": f"with the data delivered otherwise ({NAMES[spec['how']]}) {detail}", "during_fault": False}
    for i, (x, y) in enumerate(zip(bo, vo)):
        if x["s"] == y["s"]:
            continue
        if y["s"] == "exc" and (spec["how"] in ("broken", "missing") or y["t"] in NUMERIC):
            # may be rejected as a whole, or too little is left
            return _done(spec, st, bo, vo, None, n)
        if x["s"] == "exc" and (spec["how"] in ("broken", "missing") or x["t"] in NUMERIC):
            return _done(spec, st, bo, vo, None, n)
        viol = bad(i, "delivery-status", f"{'raised ' + y['t'] + '(' + y.get('msg', '')[:60] + ')' if y['s'] == 'exc' else 'completed'} instead of "
                   f"{'raising ' + x['t'] if x['s'] == 'exc' else 'completing'}")
        return _done(spec, st, bo, vo, viol, n)
    for t in spec["tell"]:
        x, y = bo[t["op"]], vo[t["op"]]
        if x["s"] != "ok" or y["s"] != "ok":
            continue
        x, y = _get(x["v"], t["path"]), _get(y["v"], t["path"])
        if isinstance(x, np.ndarray) and x.dtype.kind != "O":
            for ax, name in enumerate(t["axes"]):
                idx = spec["orders"].get(name)
                if idx is not None:
                    x = np.take(x, idx, axis=ax)
                sk = t["skip"].get(name)
                if sk and isinstance(y, np.ndarray) and y.shape == x.shape:
                    keep = [j for j in range(x.shape[ax]) if j not in sk]
                    x, y = np.take(x, keep, axis=ax), np.take(y, keep, axis=ax)
        n += 1
        d = compare.diff(y, x, t["rtol"])
        if d:
            viol = bad(t["op"], "delivery-dependent", f"{'/'.join(map(str, t['path']))}: {d}")
            break
    return _done(spec, st, bo, vo, viol, n)


def _done(spec, st, bo, vo, viol, n):
    st["compared"] = n
    return {"violation": viol, "stats": st, "ops": None,
            "digest": compare.digest([[o.get("s"), o.get("t"), o.get("v")] for o in bo + vo])}


# a fit or an inversion which did not come off: it may depend on the rounding
NUMERIC = ("LinAlgError", "RuntimeError")
NAMES = {"order": "other order", "twice": "everything twice", "chans": "channels in another order", "missing": "items missing",
         "broken": "broken item"}


def nontrivial(spec, res):
    return res["stats"].get("compared", 0) > 0


def reductions(spec):
    """Candidate smaller specs: one comparison only, without requests no comparison needs
    (the same request on both sides; the first one, which makes the object, stays)."""
    if len(spec["tell"]) > 1:
        for t in spec["tell"]:
            yield dict(copy.deepcopy(spec), tell=[copy.deepcopy(t)])
    told = {t["op"] for t in spec["tell"]}
    for i in reversed(range(1, len(spec["ops"]))):
        if i in told or len(spec["ops"]) != len(spec["var"]):
            continue
        c = copy.deepcopy(spec)
        del c["ops"][i], c["var"][i]
        for t in c["tell"]:
            t["op"] -= t["op"] > i
        yield c
