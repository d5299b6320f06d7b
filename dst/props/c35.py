"""C35: equivalent ways of asking give the same answer."""
import copy
import inspect

from .. import catalog, compare, forkrun, mixed, models_nsmb, runtime
from ..models import M_OF, maybe, pick, seed
from ..models_didv import M_DIDV, M_PRIORS
from ..models_fit import M_MU, M_NL, M_TES, TES_METHODS
from ..models_iv import ATTRS_IV, M_IBIS, M_IV
from ..models_noise import CALC, GROUPS, M_NOISE

ID = "C35"
RUNS = {"quick": 2200, "thorough": 25000}
RULE = ("Seeded histories executed twice in pristine processes, the second time with every request put in another documented form "
        "(keyword, position, explicit default, other scalar types and containers; function or object; whole batch or item by item; "
        "other documented shapes; quantities given instead of derived), in another interleaving and with unrelated and failing requests "
        "in between. Corresponding answers must agree. Non-trivial: at least two answers compared.")
STUBS = "arrival order and form of the requests; numpy data allocator"
RTOL = 1e-6


def fn(f, *pa, **a):
    return {"m": "@fn", "f": f, "pa": list(pa), "a": a}


def call(o, m, *pa, **a):
    return {"o": o, "m": m, "pa": list(pa), "a": a}


def obs(o, *attrs):
    return {"o": o, "m": "@obs", "attrs": list(attrs)}


class G:
    """One group of corresponding requests."""

    def __init__(self, kind):
        self.kind, self.b, self.v, self.tells = kind, [], [], []

    def both(self, b, v, tell=True, path=(), rtol=RTOL):
        self.b.append(b)
        self.v.append(v)
        if tell:
            self.tell(len(self.b) - 1, path, len(self.v) - 1, path, rtol)

    def tell(self, bi, bp, vi, vp, rtol=RTOL):
        self.tells.append([bi, list(bp), vi, list(vp), rtol])

    def spec(self):
        return {"kind": self.kind, "b": self.b, "v": self.v, "tell": self.tells}


# -- the same call written otherwise -----------------------------------------------
def signature(op):
    try:
        if op["m"] == "@fn":
            f = runtime.resolve(op["f"])
        elif op["m"] == "@new":
            c = runtime.resolve(op["cls"])
            f = c.__init__ if inspect.isclass(c) else c
            s = list(inspect.signature(f).parameters.values())
            return s[1:] if inspect.isclass(c) else s
        else:
            return None
        return list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return None


CLS = {}


def method_signature(op):
    c = CLS.get(op["o"])
    if not c or op["m"].startswith("@"):
        return None
    c = runtime.resolve(c)
    f = getattr(c, op["m"], None) if inspect.isclass(c) else None
    if c.__name__ == "didvinitfromdata":
        f = getattr(runtime.resolve("DIDV"), op["m"])
    return list(inspect.signature(f).parameters.values())[1:] if f else None


NOFORM = {"rng", "name", "savename", "savepath"}


def reform_value(rng, v, k=None):
    how = []
    if isinstance(v, bool):
        how = ["npbool"]
    elif isinstance(v, int):
        how = ["npint", "npint", "npfloat"] if k in ("fs", "sgfreq", "fcutoff", "squidn") else ["npint"]
    elif isinstance(v, float):
        if v == v and abs(v) != float("inf") and v != 0:
            how = ["npfloat"] + (["int"] if v == int(v) and abs(v) < 1e7 and abs(v) >= 1 else [])
    elif isinstance(v, str):
        how = ["copystr", "npstr"]
    elif isinstance(v, list) and v:
        if k in ("channames", "chan_names"):
            how = ["tuple", "array"]
        elif k in ("normalinds", "scinds"):
            how = ["array"] + (["range"] if v == list(range(v[0], v[0] + len(v))) else [])
        elif k in ("temps", "chans", "poles"):
            how = ["array", "tuple"]
            if len(v) == 1 and maybe(rng, 0.5):
                return v[0]
        elif k == "whichcsd":
            how = ["tuple"]
    elif isinstance(v, dict) and v.get("$") == "tuple" and k in ("guess", "params"):
        return dict({"$": "form", "of": v["v"], "how": "array"}) if maybe(rng, 0.5) else list(v["v"])
    if not how:
        return v
    return {"$": "form", "of": v, "how": pick(rng, how)}


def reform(rng, op, p=0.6):
    """The same call, written in another way."""
    if op["m"] in ("@obs", "@del", "@gc", "@copy"):
        return op
    sig = signature(op) or method_signature(op)
    op = dict(op, pa=list(op.get("pa", [])), a=dict(op.get("a", {})))
    if sig and not any(q.kind in (q.VAR_POSITIONAL,) for q in sig):
        names = [q.name for q in sig if q.kind == q.POSITIONAL_OR_KEYWORD]
        dflt = {q.name: q.default for q in sig if q.default is not q.empty}
        simple = {k: v for k, v in dflt.items() if v is None or isinstance(v, (bool, int, float, str))}
        r = rng.random()
        if r < 0.3:                                  # positions -> keywords
            k = rng.randrange(len(op["pa"]) + 1)
            for n, v in zip(names[k:], op["pa"][k:]):
                op["a"][n] = v
            op["pa"] = op["pa"][:k]
        elif r < 0.6:                                # keywords -> positions
            for n in names[len(op["pa"]):]:
                if n in op["a"]:
                    op["pa"].append(op["a"].pop(n))
                elif n in simple and any(x in op["a"] for x in names):
                    op["pa"].append(simple[n])
                else:
                    break
        if maybe(rng, 0.4):                          # defaults made explicit
            for n in names[len(op["pa"]):]:
                if n in simple and n not in op["a"] and maybe(rng, 0.5) and not n.startswith("lgcsave"):
                    op["a"][n] = simple[n]
            items = list(op["a"].items())
            rng.shuffle(items)
            op["a"] = dict(items)
        for i, v in enumerate(op["pa"]):
            if maybe(rng, p):
                op["pa"][i] = reform_value(rng, v, names[i] if i < len(names) else None)
    for k, v in list(op["a"].items()):
        if maybe(rng, p) and k not in NOFORM:
            op["a"][k] = reform_value(rng, v, k)
    return op


def forms(rng, name):
    g = G("form of the call")
    if maybe(rng, 0.4):
        c = catalog.Ctx(rng)
        names = catalog.NAMES if maybe(rng, 0.5) else [pick(rng, catalog.NAMES)]
        for _ in range(pick(rng, [3, 5, 8])):
            op = catalog.call(rng, c, names)
            op.pop("mutates", None)
            g.both(op, reform(rng, op))
        return g
    kind = pick(rng, mixed.WEIGHTED + ["of"] * 4)
    o = mixed.Obj(rng, kind, name)
    narrow = maybe(rng, 0.4)
    for op in o.make(rng):
        if op["m"] == "@new":
            CLS[op["o"]] = op["cls"]
        g.both(op, reform(rng, op), op.get("f") is not None)
    for _ in range(pick(rng, [3, 5, 8])):
        op = o.op(rng, 0.25)
        if narrow and "nconstrain" in op.get("a", {}):     # windows of a few bins around some bin
            op["a"].update(nconstrain=rng.randrange(1, 8), windowcenter=rng.randrange(-8, 9))
        g.both(op, reform(rng, op))
    if kind not in ("nsmb", "nl", "mu", "tes", "of"):
        last = o.mo.observe_all(rng, o.me, name) if hasattr(o.mo, "observe_all") else [o.mo.obs(rng, name, True)]
        for op in last:
            g.both(op, op)
    return g


# -- function or object ------------------------------------------------------------
def plainof(rng, name):
    me = M_OF.meta(rng)
    me["n"] = pick(rng, [64, 65, 100, 101])
    op = M_OF.ctor(rng, me, name)
    a = op["a"]
    if a["signal"].get("$") == "inbuf":
        a["signal"] = a["signal"]["val"]
    return me, op


def sig(rng, me):
    s = M_OF.trace(rng, me, False)
    return s["val"] if s.get("$") == "inbuf" else s


def filters(rng, name):
    """Stateless optimum filters and the methods of the object."""
    g = G("function or object")
    me, new = plainof(rng, name)
    a = new["a"]
    n, fs, s = me["n"], me["fs"], me["sig"]
    cp = {k: a[k] for k in ("coupling",) if k in a}
    integral = a.get("integralnorm")
    g.v.append(new)
    cur = a["signal"]
    head = lambda: [cur, a["template"], a["psd"], a["fs"]]
    for _ in range(pick(rng, [2, 4, 6])):
        if maybe(rng, 0.35):
            cur = sig(rng, me)
            g.v.append(call(name, "update_signal", signal=cur))
        nc = {}
        if maybe(rng, 0.5):
            k = pick(rng, [1, 5, 20, n - 2, n + 50])
            nc = {"nconstrain": k, "lgcoutsidewindow": k < n - 1 and maybe(rng, 0.5)}
        r = rng.random()
        if integral or r < 0.35:
            kw = dict(cp, **({"integralnorm": True} if integral else {}))
            if maybe(rng, 0.3):
                g.b.append(fn("core.ofamp", *head(), withdelay=False, **kw))
                g.v.append(call(name, "ofamp_nodelay"))
                g.tell(len(g.b) - 1, [0], len(g.v) - 1, [0])
                g.tell(len(g.b) - 1, [2], len(g.v) - 1, [1])
            else:
                sg = maybe(rng, 0.4)
                g.b.append(fn("core.ofamp", *head(), **nc, **kw, **({"lgcsigma": True} if sg else {})))
                if sg:
                    g.v.append(call(name, "energy_resolution"))
                    g.tell(len(g.b) - 1, [3], len(g.v) - 1, [])
                g.v.append(call(name, "ofamp_withdelay", **nc))
                for i in range(3):
                    g.tell(len(g.b) - 1, [i], len(g.v) - 1, [i])
        elif r < 0.55:
            a1, t1 = s * pick(rng, [30, -40, 5.5]), pick(rng, [0.0, 1 / fs, -11 / fs, 2.4 / fs])
            nc2 = {"nconstrain2" if k == "nconstrain" else k: v for k, v in nc.items()} or {"lgcoutsidewindow": True}
            if maybe(rng, 0.7):
                g.b.append(fn("core.ofamp_pileup", *head(), a1=a1, t1=t1, **nc2, **cp))
                g.v.append(call(name, "ofamp_pileup_iterative", a1, t1, **(nc or {"lgcoutsidewindow": True})))
                off = 2
            else:
                n1 = pick(rng, [None, 7])
                g.b.append(fn("core.ofamp_pileup", *head(), nconstrain1=n1, **nc2, **cp))
                g.v.append(dict(call(name, "ofamp_withdelay", nconstrain=n1), keep=name + "w%d" % len(g.v)))
                k = g.v[-1]["keep"]
                for i in range(2):
                    g.tell(len(g.b) - 1, [i], len(g.v) - 1, [i])
                g.v.append(call(name, "ofamp_pileup_iterative", {"$": "keep", "k": k, "ix": [0]}, {"$": "keep", "k": k, "ix": [1]},
                                **(nc or {"lgcoutsidewindow": True})))
                off = 2
            for i in range(3):
                g.tell(len(g.b) - 1, [off + i], len(g.v) - 1, [i])
        elif r < 0.7:
            kw = nc or {"lgcoutsidewindow": maybe(rng, 0.5)}
            g.b.append(fn("core.ofamp_pileup_stationary", *head(), **kw, **cp))
            g.v.append(call(name, "ofamp_pileup_stationary", **kw))
            for i in range(4):
                g.tell(len(g.b) - 1, [i], len(g.v) - 1, [i])
        elif r < 0.85:
            amp, t0, kw = s * pick(rng, [0.0, 30, -40]), pick(rng, [0.0, 3 / fs, -11 / fs]), {}
            if maybe(rng, 0.7):
                kw["fcutoff"] = fs * pick(rng, [0.01, 0.05, 0.3])
            g.b.append(fn("core.chi2lowfreq", cur, a["template"], amp, t0, a["psd"], a["fs"], **kw, **cp))
            g.v.append(call(name, "chi2_lowfreq", amp, t0, **kw))
            g.tell(len(g.b) - 1, [], len(g.v) - 1, [])
        else:
            g.b.append(fn("core.chi2_nopulse", cur, a["psd"], a["fs"], **cp))
            g.v.append(call(name, "chi2_nopulse"))
            g.tell(len(g.b) - 1, [], len(g.v) - 1, [])
    return g


# -- a whole batch or item by item ---------------------------------------------------
def batch(rng, name):
    g = G("whole batch or item by item")
    r = rng.random()
    if r < 0.5:
        me, new = plainof(rng, name)
        a = new["a"]
        n, fs, s = me["n"], me["fs"], me["sig"]
        k = pick(rng, [2, 3, 5])
        rows = [sig(rng, me) for _ in range(k)]
        whole = {"$": "stack", "v": rows}
        cp = {x: a[x] for x in ("coupling",) if x in a}
        f = pick(rng, ["ofamp", "ofamp", "chi2lowfreq", "chi2_nopulse"])
        if f == "ofamp":
            kw = dict(cp)
            if maybe(rng, 0.25):
                kw["withdelay"] = False
            elif maybe(rng, 0.5):
                w = pick(rng, [1, 5, 20, n - 2])
                kw.update(nconstrain=w, lgcoutsidewindow=maybe(rng, 0.4) and w < n - 1)
            if maybe(rng, 0.4):
                kw["lgcsigma"] = True
            g.b.append(fn("core.ofamp", whole, a["template"], a["psd"], a["fs"], **kw))
            for i in range(k):
                g.v.append(fn("core.ofamp", rows[i], a["template"], a["psd"], a["fs"], **kw))
                for j in range(3):
                    g.tell(0, [j, i], i, [j])
                if kw.get("lgcsigma"):
                    g.tell(0, [3], i, [3])
        elif f == "chi2lowfreq":
            kw = dict(cp)
            if maybe(rng, 0.7):
                kw["fcutoff"] = fs * pick(rng, [0.05, 0.3])
            amps = [s * pick(rng, [0.0, 30, -40]) for _ in range(k)]
            t0s = [pick(rng, [0.0, 3 / fs, -11 / fs]) for _ in range(k)]
            g.b.append(fn("core.chi2lowfreq", whole, a["template"], {"$": "arr", "v": amps}, {"$": "arr", "v": t0s}, a["psd"], a["fs"], **kw))
            for i in range(k):
                g.v.append(fn("core.chi2lowfreq", rows[i], a["template"], amps[i], t0s[i], a["psd"], a["fs"], **kw))
                g.tell(0, [i], i, [])
        else:
            g.b.append(fn("core.chi2_nopulse", whole, a["psd"], a["fs"], **cp))
            for i in range(k):
                g.v.append(fn("core.chi2_nopulse", rows[i], a["psd"], a["fs"], **cp))
                g.tell(0, [i], i, [])
        return g
    if r < 0.6:
        M = pick(rng, [M_IV, M_IV, M_IBIS])
        me = M.meta(rng)
        nt, nc, n = me["shape"]
        new = M.ctor(rng, me, name)
        a = new["a"]
        a["dites"].pop("nans", None)
        g.b += [new, call(name, M.analyse), obs(name, *M.attrs)]
        t, c = rng.randrange(nt), rng.randrange(nc)
        part = lambda x, k: {"$": "item", "of": x, "ix": [[t, t + 1], [c, c + 1]][2 - k:] if k < 3 else [[t, t + 1], [c, c + 1]]}
        one = {}
        for k, v in a.items():
            sh = v.get("shape", []) if isinstance(v, dict) else []
            one[k] = part(v, len(sh)) if sh else v
        one["chan_names"] = [a["chan_names"][c]]
        g.v += [dict(new, a=one), call(name, M.analyse), obs(name, *M.attrs)]
        for k in M.attrs:
            g.tell(2, [k, [[t, t + 1], [c, c + 1]]], 2, [k])
        return g
    c = catalog.Ctx(rng, 0)
    f = pick(rng, ["lowpassfilter", "lowpassfilter", "energy_absorbed", "energy_absorbed", "resample_data", "powertrace_simple",
                   "compleximpedance", "complexadmittance", "tes", "align_traces", "calc_psd"])
    if f == "tes":
        new = M_TES.ctor(rng, {}, name)
        fr = M_TES.freqs(rng)
        fr["n"] = 6
        new["a"].pop("freqs", None)
        own = dict(new, a=dict(new["a"], freqs=fr))
        g.b.append(own)
        g.v.append(new if maybe(rng, 0.5) else own)
        for _ in range(4):
            m = pick(rng, TES_METHODS)
            g.b.append(call(name, m))
            if maybe(rng, 0.5):
                g.v.append(call(name, m, fr))
                g.tell(len(g.b) - 1, [], len(g.v) - 1, [])
            else:
                i = rng.randrange(6)
                g.v.append(call(name, m, {"$": "np", "v": fr["a"] + (fr["b"] - fr["a"]) * i / 5}))
                g.tell(len(g.b) - 1, [i], len(g.v) - 1, [])
        return g
    k = pick(rng, [2, 3, 6])
    op = None
    while op is None or "'twin'" in repr(op):
        op = catalog.CAT[f][0](rng, c)
    x = dict(op["pa"][0])
    if f in ("compleximpedance", "complexadmittance"):
        k = x["n"]
        part = lambda i: {"$": "np", "v": x["a"] + (x["b"] - x["a"]) * i / (k - 1)}
    elif f == "align_traces":
        k = x["nt"]
        part = lambda i: {"$": "item", "of": x, "ix": [[0, i + 1]]}
    elif f == "powertrace_simple":
        x["shape"] = [k, c.n]
        part = lambda i: {"$": "item", "of": x, "ix": [i]}
    else:
        x["shape"] = [k, c.n]
        row = maybe(rng, 0.7) or op["a"].get("axis", -1) == 0
        part = lambda i: {"$": "item", "of": x, "ix": [i if row else [i, i + 1]]}
    if f == "resample_data" and op["a"].get("axis", -1) == 0:
        x = {"$": "swap", "of": x}
    if f == "calc_psd":      # the ensemble of one
        x["shape"] = [1, c.n]
        g.b.append(dict(op, pa=[x]))
        g.v.append(dict(op, pa=[{"$": "item", "of": x, "ix": [0]}]))
        g.tell(0, [0], 0, [0])
        g.tell(0, [1], 0, [1])
        if maybe(rng, 0.5):   # folded at once or afterwards
            op = dict(op, a=dict(op["a"], folded_over=True))
            g.b.append(op)
            g.v.append(dict(op, a=dict(op["a"], folded_over=False), keep=name))
            g.v.append(fn("core.foldpsd", {"$": "keep", "k": name, "ix": [1]}, op["a"].get("fs", 1.0)))
            g.tell(1, [0], 2, [0])
            g.tell(1, [1], 2, [1])
        return g
    g.b.append(dict(op, pa=[x] + op["pa"][1:]))
    axis = op["a"].get("axis", -1)
    for i in range(k):
        if f == "align_traces":
            # the first trace is what the others are aligned to
            part = lambda i: {"$": "arrive", "of": x, "take": [[0, [0, i]]]}
            g.v.append(dict(op, pa=[part(i)] + op["pa"][1:]))
            g.tell(0, ([] if op["a"].get("lgcjustshifts") else [0]) + [i], i, ([] if op["a"].get("lgcjustshifts") else [0]) + [1])
            continue
        o = dict(op, pa=[part(i)] + op["pa"][1:])
        if f == "resample_data" and axis == 0:
            o["pa"][0] = {"$": "item", "of": x["of"], "ix": [i]}
            o["a"] = {}
        g.v.append(o)
        if f == "resample_data":
            g.tell(0, [0, [":", i] if axis == 0 else i], i, [0] if row else [0, 0])
            g.tell(0, [1], i, [1])
        elif f in ("compleximpedance", "complexadmittance", "powertrace_simple") or row:
            g.tell(0, [i], i, [])
        else:
            g.tell(0, [i], i, [0])
    return g


# -- documented shapes ---------------------------------------------------------------
def shapes(rng, name):
    g = G("documented shapes of the data")
    if maybe(rng, 0.3):
        me = M_NOISE.meta(rng)
        me["shape"][1] = 1
        nt, _, n = me["shape"]
        base = M_NOISE.ctor(rng, me, name)
        var = dict(base, a=dict(base["a"]))
        x = base["a"]["traces"]
        var["a"]["traces"] = {"$": "reshape", "of": x, "shape": [nt, n]}
        if maybe(rng, 0.4) and "tracegain" in var["a"]:
            k = var["a"].pop("tracegain")
            var["a"]["traces"] = {"$": "times", "of": var["a"]["traces"], "k": 1 / k}
        if maybe(rng, 0.4) and "time" not in var["a"]:
            var["a"]["time"] = {"$": "range", "n": n, "fs": me["fs"]}
        g.both(base, var, False)
        for m in [pick(rng, ["remove_trace_slope", "calculate_psd"]), "calculate_psd"]:
            g.both(call(name, m), call(name, m))
        at = ["traces", "time", "fs", "channames", "freqs"] + GROUPS["psd"]
        g.both(obs(name, *at), obs(name, *at))
        return g
    M = pick(rng, [M_IV, M_IBIS])
    me = M.meta(rng)
    if maybe(rng, 0.7):
        me["shape"][0] = 1
        if maybe(rng, 0.4):
            me["shape"][1] = 1
    nt, nc, n = me["shape"]
    base = M.ctor(rng, me, name)
    base["a"]["dites"].pop("nans", None)
    res, err = ("rload", "rload_err") if M is M_IV else ("rp_guess", "rp_err_guess")
    kind = pick(rng, ["scalar", "chan", "both"] if nt > 1 or nc > 1 else ["scalar", "chan"])
    R = 1.1e-2 if M is M_IV else 6e-3
    if kind == "scalar":
        vals = {"scalar": R, "chan": {"$": "full", "shape": [nc], "v": R}, "both": {"$": "full", "shape": [nt, nc], "v": R},
                "full": {"$": "full", "shape": [nt, nc, n], "v": R}}
    elif kind == "chan":
        v = [R * (1 + 0.2 * j) for j in range(nc)]
        vals = {"chan": {"$": "arr", "v": v}, "both": {"$": "arr", "v": [v] * nt},
                "full": {"$": "bcast", "of": {"$": "arr", "v": v}, "as_shape": [1, nc, 1], "shape": [nt, nc, n]}}
    else:
        v = [[R * (1 + 0.2 * j + 0.05 * i) for j in range(nc)] for i in range(nt)]
        vals = {"both": {"$": "arr", "v": v},
                "full": {"$": "bcast", "of": {"$": "arr", "v": v}, "as_shape": [nt, nc, 1], "shape": [nt, nc, n]}}
    fb = sorted(vals)[rng.randrange(len(vals))]
    fv = sorted(vals)[rng.randrange(len(vals))]
    small = lambda r: 1e-2 * r if isinstance(r, float) else {"$": "times", "of": r, "k": 1e-2}
    base["a"][res], base["a"][err] = vals[fb], small(vals[fb])
    var = dict(base, a=dict(base["a"]))
    var["a"][res], var["a"][err] = vals[fv], small(vals[fv])
    if nt == 1 and maybe(rng, 0.8):
        sh = [n] if nc == 1 and maybe(rng, 0.7) else [nc, n]
        for k in ("dites", "dites_err", "vb", "vb_err", "ibias", "ibias_err"):
            if k in var["a"]:
                var["a"][k] = {"$": "reshape", "of": var["a"][k], "shape": sh}
    g.both(base, var, False)
    op = call(name, M.analyse)
    if M is M_IBIS and maybe(rng, 0.4):
        op = M.ana(rng, me, name)
    g.both(op, op)
    g.both(obs(name, *M.attrs), obs(name, *M.attrs))
    if maybe(rng, 0.2):
        p = M.plot(rng, me, name)
        g.both(p, reform(rng, p))
    return g


def ivibis(rng, name):
    """The bias voltage given, or the bias current through the shunt."""
    g = G("bias voltage or bias current")
    me = M_IBIS.meta(rng)
    nt, nc, n = me["shape"]
    ib = M_IBIS.ctor(rng, me, name)
    a = ib["a"]
    a["dites"].pop("nans", None)
    a.update(fitsc=False, rsh_err=0.0, rp_guess=6e-3, rp_err_guess=0.0)
    a["dites_err"] = {"$": "full", "shape": me["shape"], "v": pick(rng, [2e-9, 1e-8])}
    iv = {"o": name, "m": "@new", "cls": "IV", "a": {
        "dites": a["dites"], "dites_err": a["dites_err"], "vb": {"$": "times", "of": a["ibias"], "k": me["rsh"]},
        "vb_err": {"$": "times", "of": a["ibias_err"], "k": me["rsh"]}, "rload": me["rsh"] + 6e-3, "rload_err": 0.0,
        "chan_names": a["chan_names"], "normalinds": a["normalinds"]}}
    g.both(ib, iv, False)
    g.both(call(name, "analyze"), call(name, "calc_iv"), False)
    at = ["ioff", "rfit", "rfit_err", "rnorm", "ites", "r0", "ptes"]
    g.both(obs(name, *at), obs(name, *at), rtol=1e-4)
    return g


# -- given instead of derived --------------------------------------------------------
def didvs(rng, name):
    g = G("given instead of derived")
    how = pick(rng, ["averages", "averages", "gain", "cut", "resample", "phase", "phase"])
    M = M_DIDV if how == "averages" else pick(rng, [M_DIDV, M_PRIORS])
    me = M.meta(rng)
    if how == "phase":
        me["add"] = True
    per = round(me["fs"] / me["sgfreq"])
    me["n"] = per * pick(rng, [1, 2, 3])
    base = M.ctor(rng, me, name)
    a = base["a"]
    a["rawtraces"].pop("as", None)
    a["fs"] = me["fs"]
    a.pop("autoresample", None)
    fits = [M.fit(rng, me, name, k) for k in pick(rng, [[1], [2], [1, 2], [2, 3]])]
    fits = [f for f in fits if f["a"]["poles"] != 4]
    if how == "averages":
        # no fits: the grids of time and frequency differ by rounding, and the fits
        # that the data do not determine well amplify that
        fits = []
        a.pop("dutycycle", None)
        g.b.append(base)
        g.b.append(call(name, "processtraces"))
        src = name + "s"
        g.v += [dict(base, o=src), call(src, "processtraces")]
        at = lambda k: {"$": "attr", "o": src, "k": k}
        va = {k: a[k] for k in ("fs", "sgfreq", "sgamp", "rsh", "r0", "rp", "dt0", "add180phase") if k in a}
        g.v.append({"o": name, "m": "@new", "cls": "didvinitfromdata", "a": dict(
            va, tmean=at("_tmean"), didvmean=at("_didvmean"), didvstd=at("_didvstd"), offset=at("_offset"), offset_err=at("_offset_err"))})
        at = ["_tmean", "_offset", "_offset_err", "_didvmean", "_didvstd", "_flatinds", "_dt0", "_freq", "_time",
              "_fs", "_sgfreq", "_sgamp", "_rsh", "_r0", "_rp", "_add180phase"]
        g.both(obs(name, *at), obs(name, *at))
    else:
        var = dict(base, a=dict(a))
        if how == "gain":
            k = pick(rng, [2.0, 0.25])
            var["a"]["tracegain"] = a.get("tracegain", 1.0) * k
            var["a"]["rawtraces"] = {"$": "times", "of": a["rawtraces"], "k": k}
        elif how == "cut":     # what is beyond the last whole period does not count
            x = dict(a["rawtraces"], n=me["n"] + pick(rng, [1, 17, per // 3]))
            base["a"]["rawtraces"] = x
            var["a"]["rawtraces"] = {"$": "item", "of": x, "ix": [[None, None], [0, me["n"]]]}
        elif how == "phase":   # half a period, written down by the caller
            del var["a"]["add180phase"]
            var["a"]["dt0"] = a["dt0"] + 1 / (2 * me["sgfreq"])
        else:
            fs = me["fs"] + me["sgfreq"] / pick(rng, [2, 5])
            base["a"].update(fs=fs, autoresample=True)
            g.v.append(dict(fn("utils.resample_data", a["rawtraces"], fs, me["sgfreq"]), keep=name + "r"))
            K = lambda i: {"$": "keep", "k": name + "r", "ix": [i]}
            var["a"].update(rawtraces=K(0), fs=K(1))
            var["a"].pop("autoresample", None)
        g.b.append(base)
        g.v.append(var)
        if how != "resample" and maybe(rng, 0.5):
            g.both(call(name, "processtraces"), call(name, "processtraces"))
            at = ["_tmean", "_offset", "_offset_err", "_didvmean", "_didvstd", "_flatinds"]
            g.both(obs(name, *at), obs(name, *at))
    for f in fits:
        g.both(f, f)
        k = f["a"]["poles"]
        g.both(call(name, "fitresult", k), call(name, "fitresult", poles=k))
    return g


def tesdidv(rng, name):
    """Noise model from a dI/dV fit, or from the fitted values."""
    g = G("given instead of derived")
    M = pick(rng, [M_DIDV, M_DIDV, M_PRIORS])
    me = M.meta(rng)
    new = M.ctor(rng, me, name)
    kind = pick(rng, ["transition", "transition", "superconducting", "normal"])
    k = 2 if kind == "transition" else 1
    fit = M.fit(rng, me, name, k)
    g.both(new, new, False)
    g.both(fit, fit)
    if maybe(rng, 0.3):
        other = M.fit(rng, me, name, 3 - k)
        g.both(other, other)
    a = {}
    for q, vs in (("G", [3e-10]), ("qetbias", [1e-4]), ("tc", [0.05]), ("tload", [0.5]), ("tbath", [0.01]), ("squiddc", [3e-12]),
                  ("squidpole", [100.0]), ("squidn", [1.2])):
        if maybe(rng, 0.3):
            a[q] = vs[0]
    ra = dict(a)
    if kind == "normal" or maybe(rng, 0.1):
        ra["rnormal"] = 0.2
    if kind != "transition" or maybe(rng, 0.5):
        ra["noisetype"] = {"$": "form", "of": kind, "how": pick(rng, ["copystr", "npstr"])} if maybe(rng, 0.5) else kind
    t = name + "t"
    g.b.append(dict(fn("sim.loadfromdidv", {"$": "obj", "o": name}, **ra), m="@new", cls="sim.loadfromdidv", o=t))
    g.b[-1].pop("f")
    g.v.append(dict(call(name, "fitresult", k), keep=name + "f"))
    sp = lambda q: {"$": "keep", "k": name + "f", "ix": ["smallsignalparams" if M is M_DIDV else "params", q]}
    rload = [sp("rsh"), sp("rp")]
    va = dict(a, rshunt=sp("rsh"), inductance=sp("L"), rload={"$": "sum", "v": rload})
    if kind == "transition":
        va.update(r0=sp("r0"), beta=sp("beta"), loopgain=sp("l"), tau0=sp("tau0"))
    else:
        va.update(r0=0, beta=0, loopgain=0, tau0=0, G=0)
        if kind == "normal":
            va.update(r0=0.2, rload={"$": "sum", "v": rload + [-0.2]})
    if "G" not in va:
        va["G"] = 5e-10
    g.v.append({"o": t, "m": "@new", "cls": "sim.TESnoise", "pa": [], "a": va})
    fr = M_TES.freqs(rng)
    for _ in range(5):
        m = pick(rng, TES_METHODS)
        g.both(call(t, m, fr), call(t, m, freqs=fr))
    at = M_TES.obs(rng, t)["attrs"]
    g.both(obs(t, *[x for x in at if x != "freqs"]), obs(t, *[x for x in at if x != "freqs"]))
    return g


def returns(rng, name):
    """Long and short form of the answer; equal quantities given in different terms."""
    g = G("form of the answer")
    r = rng.random()
    if r < 0.35:
        M = pick(rng, [M_NL, M_MU])
        me = M.meta(rng)
        new = M.ctor(rng, me, name)
        g.both(new, new, False)
        for _ in range(pick(rng, [1, 2])):
            op = M.fitop(rng, me, name)
            full, short = dict(op, a=dict(op["a"], lgcfullrtn=True)), dict(op, a={k: v for k, v in op["a"].items() if k != "lgcfullrtn"})
            g.b.append(full)
            g.v.append(short)
            g.tell(len(g.b) - 1, [0], len(g.v) - 1, [])
        return g
    c = catalog.Ctx(rng, 0)
    f = pick(rng, ["energy_absorbed", "energy_absorbed", "get_offset_from_muon", "stdcomplex", "itercov", "estimate_g", "calc_offset", "slope",
                   "iterstat", "align_traces", "noise", "make_decreasing", "psdinf", "ttl"])
    if f == "psdinf":
        me, new = plainof(rng, name)
        new["a"].pop("coupling", None)
        var = dict(new, a=dict(new["a"], coupling="DC", psd=dict(new["a"]["psd"], dc="inf")))
        g.both(new, var, False)
        for _ in range(4):
            op = M_OF.query(rng, me, name)
            if op["m"] != "ofamp_baseline":
                g.both(op, op)
        return g
    if f == "ttl":
        return g
    op = None
    while op is None or "'twin'" in repr(op) or f in ("stdcomplex", "itercov") and "'as'" in repr(op):
        op = catalog.CAT["calc_psd" if f == "noise" else f][0](rng, c)
    a, pa = dict(op["a"]), list(op["pa"])
    if f == "energy_absorbed":
        for k in ("fs", "time", "baseline", "indbasepre", "indbasepost"):
            a.pop(k, None)
        b = {"baseline": 1e-7} if maybe(rng, 0.5) else {"indbasepre": 20}
        g.b.append(dict(op, a=dict(b, fs=c.fs)))
        v = dict(b, time={"$": "range", "n": c.n, "fs": c.fs, "start": pick(rng, [0.0, 0.1])}) if maybe(rng, 0.6) else dict(b, fs=c.fs)
        if "indbasepre" in b and maybe(rng, 0.5):
            v.pop("indbasepre")
            x = pa[0]
            if len(x["shape"]) == 1:
                g.v.append(dict(fn("utils.calc_offset", {"$": "reshape", "of": {"$": "item", "of": x, "ix": [[0, 20]]}, "shape": [1, 1, 20]}), keep=name))
                v["baseline"] = {"$": "keep", "k": name, "ix": [0]}
            else:
                v["indbasepre"] = 20
        g.v.append(dict(op, a=v))
        g.tell(0, [], len(g.v) - 1, [], 1e-5)
    elif f == "get_offset_from_muon":
        g.b.append(dict(op, a=dict(a, lgcfullrtn=True)))
        g.v.append(dict(op, a=dict(a, lgcfullrtn=False)))
        g.tell(0, [0], 0, [])
    elif f == "stdcomplex":
        g.b.append(dict(op, a={"axis": 0} if maybe(rng, 0.5) else {}))
        g.v.append(dict(op, pa=[{"$": "swap", "of": pa[0]}], a={"axis": pick(rng, [1, -1])}))
        g.tell(0, [], 0, [])
    elif f == "itercov":
        n = 40
        x = {"$": "vals", "n": n, "seed": seed(rng), "how": pick(rng, ["normal", "outliers"])}
        y = {"$": "vals", "n": n, "seed": seed(rng), "how": "normal"}
        cols = [x, y] + ([{"$": "vals", "n": n, "seed": seed(rng), "how": "normal"}] if maybe(rng, 0.3) else [])
        g.b.append(dict(op, pa=[{"$": "swap", "of": {"$": "stack", "v": cols}}], a=a))
        g.v.append(dict(op, pa=cols, a=a))
        g.tell(0, [], 0, [])
    elif f == "estimate_g":
        a = {k: v for k, v in a.items() if k == "n"}
        e = pick(rng, [1e-14, 3e-13])
        g.b.append(dict(op, a=dict(a, p0_err=e)))
        g.v.append(dict(op, a=dict(a, cov={"$": "arr", "v": [[e * e, 0, 0], [0, 0, 0], [0, 0, 0]]})))
        g.tell(0, [], 0, [])
    elif f == "calc_offset":
        x = pa[0]
        n = x["shape"][-1]
        per = pick(rng, [8, 16, 30])
        m = n // per * per
        g.b.append(dict(op, a={"fs": c.fs, "sgfreq": c.fs / per, "is_didv": True}))
        g.v.append(dict(op, pa=[{"$": "item", "of": x, "ix": [[None, None], [None, None], [0, m]]}], a={}))
        g.tell(0, [], 0, [])
    elif f == "slope":
        g.b.append(dict(op, a={}))
        g.v.append(dict(op, a={"removemeans": True}))
        g.tell(0, [], 0, [])
    elif f == "iterstat":
        g.b.append(dict(op, a=dict(a, return_unbiased_estimates=True)))
        g.v.append(dict(op, a=dict(a, return_unbiased_estimates=False)))
        g.tell(0, [2], 0, [2])
    elif f == "align_traces":
        g.b.append(dict(op, a=dict(a, lgcjustshifts=True)))
        g.v.append(dict(op, a=dict(a, lgcjustshifts=False)))
        g.tell(0, [], 0, [0])
    elif f == "make_decreasing":
        n = c.n
        g.b.append(dict(op, pa=pa[:1]))
        g.v.append(dict(op, pa=pa[:1] + [{"$": "linspace", "a": 0.0, "b": float(n - 1), "n": n}]))
        g.tell(0, [], 0, [])
    elif f == "noise":
        me = M_NOISE.meta(rng)
        new = M_NOISE.ctor(rng, me, name)
        new["a"].pop("tracegain", None)
        nt, nc, n = me["shape"]
        g.b += [new, call(name, "calculate_psd"), obs(name, "psd", "freqs")]
        for i in range(nc):
            x = new["a"]["traces"]
            g.v.append(fn("core.calc_psd", {"$": "item", "of": x, "ix": [[None, None], i]}, fs=me["fs"], folded_over=True))
            g.tell(2, ["freqs"], i, [0])
            g.tell(2, ["psd", i, [[1, n // 2 - 1]]], i, [1, [[1, n // 2 - 1]]])
    return g


# -- composed of its parts -----------------------------------------------------------
STEPS = "in one go or step by step"


def composed(rng, name):
    """One request, or the requests it documentedly consists of."""
    f = pick(rng, ["cuts", "cuts", "demean", "ibis", "ibis", "nsmb", "nsmb", "didv0", "template", "ttl"])
    g = G(STEPS)
    if f in ("cuts", "demean"):
        n, fs = pick(rng, [96, 120, 200]), 625e3
        x = {"$": "cuttraces", "nt": pick(rng, [14, 25, 40]), "n": n, "seed": seed(rng), "bad": pick(rng, [0, 3, 5]), "tails": pick(rng, [0, 2])}
        if f == "demean":
            o = {"outlieralgo": pick(rng, ["removeoutliers", "iterstat"])}
            g.b.append(fn("cut._cut.pileupcut", x, removemeans=True, **o))
            g.v.append(fn("cut._cut.pileupcut", {"$": "demean", "of": x}, **o))
            g.tell(0, [], 0, [])
            return g
        is_didv, sgfreq, algo = maybe(rng, 0.4), fs / n * pick(rng, [1, 2]), pick(rng, ["removeoutliers", "iterstat"])
        common = {"fs": fs, "is_didv": is_didv, "sgfreq": sgfreq, "outlieralgo": algo}
        slow = {"outlieralgo": algo, "fs": fs}
        STAGES = {"lgcpileup1": ("pileupcut", slow, "nsigpileup1"), "lgcslope": ("slopecut", common, "nsigslope"),
                  "lgcbaseline": ("baselinecut", common, "nsigbaseline"),
                  "lgcpileup2": ("pileupcut", dict(slow, removemeans=True), "nsigpileup2"),
                  "lgcchi2": ("chi2cut", {"fs": fs, "outlieralgo": "iterstat"}, "nsigchi2")}
        use = [k for k in STAGES if maybe(rng, 0.6) and (k != "lgcpileup2" or is_didv)] or ["lgcslope"]
        sig = {STAGES[k][2]: pick(rng, [1.5, 2, 3]) for k in use}
        prev = None
        for i, k in enumerate(use):
            a = dict(common, **{q: q in use[:i + 1] for q in STAGES}, **{STAGES[q][2]: sig[STAGES[q][2]] for q in use[:i + 1]})
            stage, kw, ns = STAGES[k]
            g.b.append(fn("cut.autocuts", x, **a))
            y = {"$": "chosen", "of": x, "by": {"$": "keep", "k": prev}} if prev else x
            g.v.append(dict(fn("cut._cut." + stage, y, **kw, nsig=sig[ns])))
            g.tell(i, [{"by": i - 1}] if i else [], len(g.v) - 1, [])
            if i < len(use) - 1:
                prev = f"{name}c{i}"
                g.v.append(dict(fn("cut.autocuts", x, **a), keep=prev))
                g.tell(i, [], len(g.v) - 1, [])
        return g
    if f == "ibis":        # the offsets given, or found
        me = M_IBIS.meta(rng)
        new = M_IBIS.ctor(rng, me, name)
        if maybe(rng, 0.7):
            new["a"]["dites"].pop("nans", None)
        nt, nc, n = me["shape"]
        at = [x for x in M_IBIS.attrs]
        g.b += [new, call(name, "analyze"), obs(name, *at)]
        off = lambda k: {"$": "reshaped", "of": {"$": "attr", "o": src, "k": k}, "shape": [nt, nc, 1]}
        src = name + "s"
        g.v += [dict(new, o=src), call(src, "analyze"), new]
        if maybe(rng, 0.4):
            g.v.append(call(name, "analyze"))
        a = {}
        which = pick(rng, ["both", "both", "x", "y"])
        if which != "x":
            a.update(yoff=off("ioff"), yoff_err=off("ioff_err"))
        if which != "y":
            a.update(xoff=off("ibias_off"), xoff_err=off("ibias_off_err"))
        g.v.append(call(name, "analyze", **a))
        g.v.append(obs(name, *at))
        g.tell(2, [], len(g.v) - 1, [])
        return g
    if f == "nsmb":        # no constraint, or constraints that allow everything
        me = models_nsmb.meta(rng)
        g.v += models_nsmb.setup(rng, me, name)
        g.b += copy.deepcopy(g.v)
        S, n = name + "s", me["n"]
        s = models_nsmb.trace(rng, me)
        while "'twin'" in repr(s) or not s["pulses"]:
            me["pool"].clear()
            s = models_nsmb.trace(rng, me)
        K = models_nsmb.K
        w = list(range(n))
        w = [{"$": "arr", "v": [w], "dtype": "int"}]
        g.b.append(fn("core.of_nsmb", s, K(S, 1), K(S, 4, T=True), K(S, 5), K(name + "i"), K(S, 0, T=True), me["fs"], w, K(S, 8), K(S, 9), K(S, 10)))
        kw = {}
        if maybe(rng, 0.5):
            kw["sigpolarityconstraint"] = {"$": "arr", "v": [0.0]}
        g.v.append(fn("core.of_nsmb_con", s, K(S, 1), K(S, 2), K(S, 3), K(S, 4, T=True), K(S, 5), K(S, 0, T=True), me["fs"], w,
                      K(S, 8), K(S, 9), K(S, 10), **kw))
        i = len(g.b) - 1
        g.tell(i, [0], i, [0], 1e-4)
        g.tell(i, [1], i, [1])
        g.tell(i, [4], i, [4], 1e-4)
        return g
    if f == "didv0":
        M = pick(rng, [M_DIDV, M_PRIORS])
        me = M.meta(rng)
        new = M.ctor(rng, me, name)
        k = pick(rng, [1, 2, 3])
        fit = M.fit(rng, me, name, k)
        par = ["rsh", "rp", "L"] if k == 1 else ["rsh", "rp", "r0", "beta", "l", "L", "tau0"] + (["gratio", "tau3"] if k == 3 else [])
        q = "smallsignalparams" if M is M_DIDV else "params"
        g.b += [new, fit, call(name, "fitresult", k)]
        g.v += [new, fit, dict(call(name, "fitresult", k), keep=name + "f")]
        g.v.append(fn("core.didv._base_didv.complexadmittance", 0, **{x: {"$": "keep", "k": name + "f", "ix": [q, x]} for x in par}))
        g.tell(2, ["didv0"], 3, [{"real": 1}])
        return g
    if f == "template":
        n, fs, k = pick(rng, [64, 65, 200]), 625e3, pick(rng, [1, 3, 7])
        t = {"$": "range", "n": n, "fs": fs}
        tau = (pick(rng, [1, 2]) / fs, pick(rng, [5, 9]) / fs)
        g.b.append(fn("utils.make_template", t, *tau, offset=k))
        g.v.append(dict(fn("utils.make_template", t, *tau), keep=name))
        g.v.append(fn("utils.shift", {"$": "keep", "k": name}, k))
        g.tell(0, [], 1, [])
        return g
    me = models_nsmb.meta(rng)      # the polarity does not change the templates
    n, fs = pick(rng, [64, 96]), me["fs"]
    me["n"] = n
    pa = [models_nsmb.template(me), fs, fs / n * 1.5 * pick(rng, [1, 2])]
    a = {"notch_window_size": pick(rng, [0, 1])}
    g.b.append(fn("core.maketemplate_ttlfit_nsmb", *pa, **a))
    g.v.append(fn("core.maketemplate_ttlfit_nsmb", *pa, lgcconstrainpolarity=True, lgcpositivepolarity=maybe(rng, 0.5), **a))
    for i in (0, 1, 3):
        g.tell(0, [i], 0, [i])
    return g


def junk(rng, name):
    """Requests that have nothing to do with the others, some of which fail."""
    g = G("unrelated requests in between")
    c = catalog.Ctx(rng)
    names = [n for n in mixed.FAST]
    for _ in range(pick(rng, [1, 3])):
        op = catalog.call(rng, c, names)
        if maybe(rng, 0.4) and op["pa"]:
            op["pa"] = op["pa"][:-1]          # an argument is missing
        g.v.append(op)
    if maybe(rng, 0.5):
        o = mixed.Obj(rng, pick(rng, ["of", "noise", "iv", "nl", "tes"]), name)
        g.v += o.make(rng) + [o.op(rng) for _ in range(3)]
    return g


KINDS = [forms] * 5 + [filters] * 3 + [batch] * 3 + [shapes] * 3 + [ivibis, didvs, didvs, tesdidv, returns, returns, returns, composed, composed, composed]


def gen(rng, i, tier):
    CLS.clear()
    groups = []
    for k in range(pick(rng, [1, 2, 3] if tier == "quick" else [1, 2, 4, 6])):
        groups.append(pick(rng, KINDS)(rng, f"g{k}").spec())
    if maybe(rng, 0.4):
        groups.append(junk(rng, "j").spec())
    return {"groups": groups, "mix": pick(rng, [None, seed(rng)])}


# -- relation --------------------------------------------------------------------------
def history(groups, side, mix):
    """The requests of one side -> operations, positions of each group's operations."""
    import random
    r = random.Random(mix)
    left = [list(enumerate(g[side])) for g in groups]
    ops, where = [], {}
    while any(left):
        alive = [k for k, q in enumerate(left) if q]
        k = alive[0] if mix is None or side == "b" else pick(r, alive)
        for _ in range(1 if mix is not None else len(left[k])):
            j, op = left[k].pop(0)
            where[k, j] = len(ops)
            ops.append(op)
    return ops, where


def _get(v, path, outs=None):
    """Part of an answer; {"by": i} picks what the answer to request i selects."""
    import numpy as np
    for k in path:
        if isinstance(k, dict):
            v = v.real if "real" in k else np.asarray(v)[np.asarray(outs(k["by"]))]
        elif isinstance(k, list):
            ix = tuple(slice(None) if x == ":" else slice(*x) if isinstance(x, list) else x for x in k)
            v = v[ix]
        else:
            v = v[k]
    return v.item() if isinstance(v, np.generic) else v


def norm(v):
    """Containers of any kind, exact types of numbers: not part of the answer."""
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist() if v.dtype.kind in "US" else v.astype(float) if v.dtype.kind in "bi" else v.item() if v.ndim == 0 else v
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (bool, int)):
        return float(v)
    return v


def run(spec):
    gs = spec["groups"]
    b, bw = history(gs, "b", None)
    w, vw = history(gs, "v", spec["mix"])
    try:
        bo = forkrun.call(runtime.run_segment, b, None, {}, False, False)["outs"] if b else []
        vo = forkrun.call(runtime.run_segment, w, None, {}, False, False)["outs"]
    except forkrun.ChildFailure as e:
        return {"harness": e.kind, "detail": e.detail, "violation": None, "stats": {}, "digest": "harness"}
    st = {"ops": len(bo) + len(vo)}
    for g in gs:
        st["form:" + g["kind"]] = st.get("form:" + g["kind"], 0) + 1
        st["fired:" + g["kind"]] = st.get("fired:" + g["kind"], 0) + 1
    for op in b + w:
        k = "op:" + name_of(op)
        st[k] = st.get(k, 0) + 1
    viol, n = None, 0
    for k, g in enumerate(gs):
        for bi, bp, vi, vp, rtol in g["tell"]:
            x, y = bo[bw[k, bi]], vo[vw[k, vi]]
            n += 1
            d = None
            if x["s"] == "exc" and g["kind"] == STEPS:
                continue                             # the steps may stop elsewhere
            if x["s"] != y["s"] or x.get("t") != y.get("t"):
                if "skip" in (x["s"], y["s"]):
                    continue
                d = f"{how(y)} instead of {how(x)}"
            elif x["s"] == "ok":
                if any(bo[bw[k, q["by"]]]["s"] != "ok" for q in bp if isinstance(q, dict) and "by" in q):
                    continue
                at = lambda i: bo[bw[k, i]]["v"]
                d = compare.diff(norm(_get(y["v"], vp)), norm(_get(x["v"], bp, at)), rtol)
            if d:
                viol = {"class": "form-dependent", "op": vw[k, vi], "what": name_of(g["v"][vi]), "during_fault": False,
                        "detail": f"({g['kind']}; the same as {name_of(g['b'][bi])}{sub(bp)}) {d}"}
                break
        if viol:
            break
    st["compared"] = n
    return {"violation": viol, "stats": st, "ops": None, "digest": compare.digest([[o.get("s"), o.get("t"), o.get("v")] for o in bo + vo])}


def sub(p):
    return "[" + "][".join(map(str, p)) + "]" if p else ""


def how(o):
    return f"raised {o['t']}({o.get('msg', '')[:80]})" if o["s"] == "exc" else "completed"


def name_of(op):
    return op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"])


def nontrivial(spec, res):
    return res["stats"].get("compared", 0) >= 2


def reductions(spec):
    """Candidate smaller specs, most aggressive first."""
    gs = spec["groups"]
    for k in range(len(gs)):
        if len(gs) > 1:
            c = copy.deepcopy(spec)
            del c["groups"][k]
            yield c
    if spec["mix"] is not None:
        yield dict(copy.deepcopy(spec), mix=None)
    for k, g in enumerate(gs):
        # corresponding requests of both sides together, last ones first
        for bs, vs in reversed(components(g["tell"])):
            if len(g["tell"]) > 1:
                c = copy.deepcopy(spec)
                q = c["groups"][k]
                q["tell"] = [t for t in q["tell"] if t[0] not in bs]
                if not q["tell"]:
                    continue
                for side, pos, gone in (("b", 0, bs), ("v", 2, vs)):
                    for j in sorted(gone, reverse=True):
                        del q[side][j]
                        for t in q["tell"]:
                            t[pos] -= t[pos] > j
                            for x in t[1] if side == "b" else ():
                                if isinstance(x, dict) and "by" in x:
                                    x["by"] -= x["by"] > j
                yield c
        for side, pos in (("b", 0), ("v", 2)):       # what comes after the last comparison
            last = max((t[pos] for t in g["tell"]), default=-1)
            if g["tell"] and len(g[side]) > last + 1:
                c = copy.deepcopy(spec)
                del c["groups"][k][side][last + 1:]
                yield c


def components(tells):
    out = []
    for t in tells:
        b, v = {t[0]} | {q["by"] for q in t[1] if isinstance(q, dict) and "by" in q}, {t[2]}
        rest = []
        for x, y in out:
            if x & b or y & v:
                b, v = b | x, v | y
            else:
                rest.append((x, y))
        out = rest + [(b, v)]
    return sorted(out, key=lambda c: max(c[1]))
