"""Seeded call generators for every public stateless function of the package.

Each generator takes (rng, ctx) and returns an operation.  ctx pools argument
recipes, so that calls with equal sizes, equal ends, or slightly changed data
follow each other (memoisation and scratch-buffer defects need such pairs)."""
from .models import M_OF, maybe, pick, seed
from . import models_nsmb

CAT = {}


def entry(name, **flags):
    def deco(f):
        CAT[name] = (f, flags)
        return f
    return deco


class Ctx:
    def __init__(self, rng, odd=0.07):
        self.odd = odd          # how often arguments are at or beyond the limits
        self.n = pick(rng, [64, 65, 100])
        self.fs = pick(rng, [1e4, 625e3])
        self.pool = {}
        self.of = M_OF.meta(rng)
        self.of.update(n=pick(rng, [64, 65, 101]), pool=[])
        self.nsmb = models_nsmb.meta(rng)
        self.seed = seed(rng)
        self.k = 0

    def var(self, rng, kind, make):
        """A recipe of this kind: fresh, repeated, or a twin of an earlier one."""
        p = self.pool.setdefault(kind, [])
        if p and maybe(rng, 0.6):
            b = pick(rng, p)
            r = rng.random()
            if r < 0.45:
                return b
            return {"$": "twin", "of": b, "how": pick(rng, ["roll", "perm", "mid", "rev", "scale", "tiny"]), "k": 3, "seed": rng.randrange(4)}
        r = make()
        if len(p) < 3:
            p.append(r)
        return r


def odd(rng, c):
    return maybe(rng, c.odd)


def layout(rng, r, p=0.25, kinds=("strided", "fortran")):
    if maybe(rng, p) and r.get("$") != "twin":
        return dict(r, **{"as": pick(rng, kinds)})
    return r


def fn(f, pa, a=None, **kw):
    o = {"m": "@fn", "f": f, "pa": pa, "a": a or {}}
    o.update({k: v for k, v in kw.items() if v})
    return o


def noise(rng, c, *shape, mean=0.0, sigma=1.0):
    return {"$": "noise", "shape": list(shape), "seed": seed(rng), "mean": mean, "sigma": sigma}


def vec(rng, c, kind="v", mean=0.0):
    return c.var(rng, kind, lambda: noise(rng, c, c.n, mean=mean))


def traces(rng, c, nt=None):
    nt = nt or pick(rng, [12, 25])
    return c.var(rng, "traces", lambda: {"$": "cuttraces", "nt": nt, "n": c.n, "seed": seed(rng),
                                         "bad": pick(rng, [0, 2]), "tails": pick(rng, [0, 2])})


# -- utils -------------------------------------------------------------------
@entry("shift")
def _(rng, c):
    return fn("utils.shift", [layout(rng, vec(rng, c)), pick(rng, [0, 1, 3, -2, 2.5, -0.5, 7.0])],
              {"fill_value": 1.5} if maybe(rng, 0.3) else {})


@entry("resample_factors")
def _(rng, c):
    return fn("utils.resample_factors", [pick(rng, [625000, 10000, 1000.0, 1e5, 1000.5]), pick(rng, [100, 80, 300, 7, 97, 60.0])])


@entry("resample_data")
def _(rng, c):
    a = {}
    if maybe(rng, 0.3):
        a["axis"] = pick(rng, [0, -1])
    return fn("utils.resample_data", [layout(rng, c.var(rng, "m2", lambda: noise(rng, c, 3, c.n))),
                                      pick(rng, [1000, 10000]), pick(rng, [100, 80, 300])], a)


@entry("make_template")
def _(rng, c):
    return fn("utils.make_template", [{"$": "range", "n": c.n, "fs": c.fs}, 2 / c.fs * pick(rng, [1, 2]), 12 / c.fs * pick(rng, [1, 2])],
              {"offset": pick(rng, [1, -5, 4])} if maybe(rng, 0.5) else {})


@entry("make_decreasing")
def _(rng, c):
    pa = [layout(rng, vec(rng, c, "pos", 3.0))]
    if maybe(rng, 0.4):
        pa.append({"$": "linspace", "a": 0.0, "b": pick(rng, [1.0, 5.0]), "n": c.n})
    return fn("utils.make_decreasing", pa)


@entry("calc_offset")
def _(rng, c):
    a = {"fs": c.fs, "sgfreq": c.fs / 20} if maybe(rng, 0.7) else {}
    if maybe(rng, 0.5):
        a["is_didv"] = True
        a.setdefault("fs", c.fs)
        a.setdefault("sgfreq", c.fs / 16)
    if odd(rng, c) and "sgfreq" in a:
        a["sgfreq"] = pick(rng, [c.fs / 31, c.fs / c.n, c.fs / (2 * c.n)])
    return fn("utils.calc_offset", [layout(rng, c.var(rng, "m3", lambda: noise(rng, c, 4, 2, c.n)))], a)


@entry("slope")
def _(rng, c):
    return fn("utils.slope", [layout(rng, {"$": "range", "n": c.n, "fs": c.fs}), layout(rng, vec(rng, c))],
              {"removemeans": maybe(rng, 0.5)} if maybe(rng, 0.5) else {})


@entry("fill_negatives", mutates=[0])
def _(rng, c):
    return fn("utils.fill_negatives", [vec(rng, c, "pos", 1.0)], mutates=[0])


@entry("lowpassfilter")
def _(rng, c):
    a = {"cut_off_freq": c.fs * pick(rng, [0.1, 0.2]), "fs": c.fs * pick(rng, [1, 1, 2.0]), "order": pick(rng, [1, 2])}
    if odd(rng, c):
        a["cut_off_freq"] = c.fs
    return fn("utils.lowpassfilter", [layout(rng, c.var(rng, "m2", lambda: noise(rng, c, 3, c.n)))], a)


@entry("align_traces")
def _(rng, c):
    a = {"lgcjustshifts": True} if maybe(rng, 0.5) else {}
    if maybe(rng, 0.4):
        a["n_cut"] = pick(rng, [40, 60])
    return fn("utils.align_traces", [layout(rng, c.var(rng, "al", lambda: {
        "$": "cuttraces", "nt": 4, "n": c.n, "seed": seed(rng), "bad": 4, "tails": 0}))], a)


@entry("get_offset_from_muon")
def _(rng, c):
    return fn("utils.get_offset_from_muon", [layout(rng, vec(rng, c)), 1e-4, 0.3, 0.012],
              {"nbaseline": 20, "lgcfullrtn": maybe(rng, 0.5)})


@entry("powertrace_simple")
def _(rng, c):
    return fn("utils.powertrace_simple", [layout(rng, vec(rng, c)), 1e-6, 1e-4, 0.012, pick(rng, [5e-3, 6e-3])])


@entry("energy_absorbed")
def _(rng, c):
    a = {}
    if maybe(rng, 0.5):
        a["fs"] = c.fs
    else:
        a["time"] = {"$": "range", "n": c.n, "fs": c.fs, "start": pick(rng, [0.0, 0.1])}
    if maybe(rng, 0.5):
        a["baseline"] = pick(rng, [0.0, 1e-7])
    else:
        a["indbasepre"] = pick(rng, [10, 20])
        if maybe(rng, 0.4):
            a["indbasepost"] = c.n - 10
    if maybe(rng, 0.06):
        a.pop("fs", None), a.pop("time", None)
    if odd(rng, c):
        a.pop("baseline", None), a.pop("indbasepre", None)
    t = vec(rng, c) if maybe(rng, 0.5) else c.var(rng, "m2", lambda: noise(rng, c, 3, c.n))
    return fn("utils.energy_absorbed", [layout(rng, t), 1e-6, 1e-4, 0.012, 5e-3], a)


@entry("estimate_g")
def _(rng, c):
    a = {}
    if maybe(rng, 0.6):
        a["cov"] = {"$": "arr", "v": [[1e-26, 0, 0], [0, 1e-6, 0], [0, 0, pick(rng, [1e-8, 1e-6])]]}
    else:
        a["p0_err"] = 1e-14
    if maybe(rng, 0.3):
        a["n"] = 4
    return fn("utils.estimate_g", [pick(rng, [3e-12, 4e-12]), 0.05, 0.01], a)


# -- noise -------------------------------------------------------------------
def psd(rng, c, n=None, **kw):
    n = n or c.n
    return c.var(rng, "psd%d" % n, lambda: {"$": "psd", "n": n, "fs": c.fs, "level": 1e-22, "seed": pick(rng, [None, seed(rng)]), **kw})


@entry("foldpsd")
def _(rng, c):
    return fn("core.foldpsd", [layout(rng, psd(rng, c)), c.fs])


@entry("calc_psd")
def _(rng, c):
    x = vec(rng, c) if maybe(rng, 0.4) else c.var(rng, "m2", lambda: noise(rng, c, 3, c.n))
    a = {"fs": pick(rng, [c.fs, 1.0])} if maybe(rng, 0.7) else {}
    if maybe(rng, 0.5):
        a["folded_over"] = maybe(rng, 0.4)
    return fn("core.calc_psd", [layout(rng, x)], a)


@entry("smooth_psd")
def _(rng, c):
    return fn("core.smooth_psd", [layout(rng, psd(rng, c, seed=3))])


@entry("gen_noise", stochastic=True)
def _(rng, c):
    p = psd(rng, c)
    if maybe(rng, 0.4) and p["$"] == "psd":
        p = dict(p, dc=pick(rng, ["inf", "inf", "zero"]))
    return fn("core.gen_noise", [layout(rng, p, kinds=("strided", "list") if False else ("strided",))],
              {"fs": c.fs, "ntraces": pick(rng, [1, 2, 5])}, stochastic=True, rng=pick(rng, [7, 7, 11, seed(rng)]))


# -- stateless optimum filters -------------------------------------------------
def ofargs(rng, c):
    k = M_OF.ctor(rng, c.of, "x")["a"]
    sig = k["signal"]
    p = k["psd"]
    if odd(rng, c) and p.get("$") == "psd":
        p = dict(p, n=p["n"] + pick(rng, [1, -1])) if maybe(rng, 0.4) else dict(p, bins=[[3 + rng.randrange(p["n"] // 3), pick(rng, [0.0, 0.0, "inf", "nan"])]])
    return [layout(rng, sig["val"] if sig.get("$") == "inbuf" else sig), k["template"], p, k["fs"]]


@entry("ofamp")
def _(rng, c):
    n = c.of["n"]
    a = {}
    if maybe(rng, 0.3):
        a["withdelay"] = False
    if maybe(rng, 0.3):
        a["coupling"] = pick(rng, ["AC", "DC"])
    if maybe(rng, 0.4):
        a["lgcsigma"] = True
    if maybe(rng, 0.5):
        a["nconstrain"] = pick(rng, [1, 5, 20, n, n + 50])
        a["lgcoutsidewindow"] = maybe(rng, 0.3)
    if maybe(rng, 0.2):
        a["integralnorm"] = True
    if odd(rng, c):
        a["nconstrain"] = pick(rng, [0, -3])
    pa = ofargs(rng, c)
    if odd(rng, c):
        pa[0] = {"$": "stack", "v": [pa[0], ofargs(rng, c)[0]]}
    return fn("core.ofamp", pa, a)


@entry("ofamp_pileup")
def _(rng, c):
    n, s = c.of["n"], c.of["sig"]
    a = {}
    if maybe(rng, 0.4):
        a.update(a1=30 * s, t1=pick(rng, [0.0, 3 / c.of["fs"]]))
    if maybe(rng, 0.3):
        a["coupling"] = pick(rng, ["AC", "DC"])
    if maybe(rng, 0.4):
        a["nconstrain1"] = pick(rng, [1, 10])
    if maybe(rng, 0.4):
        a["nconstrain2"] = pick(rng, [2, 20, n])
        a["lgcoutsidewindow"] = maybe(rng, 0.5)
    return fn("core.ofamp_pileup", ofargs(rng, c), a)


@entry("ofamp_pileup_stationary")
def _(rng, c):
    a = {}
    if maybe(rng, 0.3):
        a["coupling"] = pick(rng, ["AC", "DC"])
    if maybe(rng, 0.4):
        a["nconstrain"] = pick(rng, [2, 20])
        a["lgcoutsidewindow"] = maybe(rng, 0.5)
    return fn("core.ofamp_pileup_stationary", ofargs(rng, c), a)


@entry("chi2lowfreq")
def _(rng, c):
    s, t, p, fs = ofargs(rng, c)
    a = {"fcutoff": fs * pick(rng, [0.05, 0.3])} if maybe(rng, 0.7) else {}
    if maybe(rng, 0.3):
        a["coupling"] = pick(rng, ["AC", "DC"])
    return fn("core.chi2lowfreq", [s, t, c.of["sig"] * pick(rng, [0.0, 30.0]), pick(rng, [0.0, 3 / fs]), p, fs], a)


@entry("chi2_nopulse")
def _(rng, c):
    s, t, p, fs = ofargs(rng, c)
    return fn("core.chi2_nopulse", [s, p, fs], {"coupling": pick(rng, ["AC", "DC"])} if maybe(rng, 0.4) else {})


# -- multi-template --------------------------------------------------------------
@entry("get_slope_dc_template_nsmb")
def _(rng, c):
    return fn("core.get_slope_dc_template_nsmb", [c.nsmb["n"]])


def bkg(rng, c):
    return c.var(rng, "bkg", lambda: {"$": "bkg", "n": c.nsmb["n"], "nb": pick(rng, [2, 3]), "seed": pick(rng, [1, 2])})


@entry("maketemplate_ttlfit_nsmb")
def _(rng, c):
    me = c.nsmb
    return fn("core.maketemplate_ttlfit_nsmb", [models_nsmb.template(me), me["fs"], me["fs"] / me["n"] * pick(rng, [1.5, 2.5, 3.5])],
              {"lgcconstrainpolarity": maybe(rng, 0.5), "lgcpositivepolarity": maybe(rng, 0.5), "notch_window_size": pick(rng, [0, 1, 2])})


@entry("of_nsmb_ffttemplate")
def _(rng, c):
    return fn("core.of_nsmb_ffttemplate", [{"$": "col", "of": models_nsmb.template(c.nsmb)}, layout(rng, bkg(rng, c))])


@entry("of_nsmb_setup")
def _(rng, c):
    me = c.nsmb
    return fn("core.of_nsmb_setup", [models_nsmb.template(me), layout(rng, bkg(rng, c)),
                                     {"$": "psd", "n": me["n"], "fs": me["fs"], "level": 1e-22, "seed": pick(rng, [None, 3])}, me["fs"]])


@entry("of_nsmb_getiP")
def _(rng, c):
    return fn("core.of_nsmb_getiP", [layout(rng, c.var(rng, "P", lambda: {"$": "noise", "shape": [3, 3, 20], "seed": seed(rng)}))])


# -- dIdV helpers ---------------------------------------------------------------
def tespars(rng):
    k = pick(rng, [1, 2, 3])
    a = {"rsh": 5e-3, "rp": pick(rng, [6e-3, 7e-3]), "L": 1e-7}
    if k >= 2:
        a.update(r0=0.0756, beta=pick(rng, [2.0, 1.0]), l=pick(rng, [10.0, 5.0]), tau0=5e-4)
    if k == 3:
        a.update(gratio=0.5, tau3=pick(rng, [1e-3, 2e-3]))
    if maybe(rng, 0.05):
        del a["L"]
    return a


def fgrid(rng):
    return {"$": "linspace", "a": pick(rng, [1.0, 10.0]), "b": pick(rng, [1e4, 1e5]), "n": pick(rng, [7, 20])}


@entry("stdcomplex")
def _(rng, c):
    return fn("core.stdcomplex", [layout(rng, c.var(rng, "cplx", lambda: {"$": "cnoise", "shape": [4, 9], "seed": seed(rng)}))],
              {"axis": pick(rng, [0, 1])} if maybe(rng, 0.4) else {})


@entry("compleximpedance")
def _(rng, c):
    return fn("core.compleximpedance", [fgrid(rng)], tespars(rng))


@entry("complexadmittance")
def _(rng, c):
    return fn("core.complexadmittance", [fgrid(rng)], tespars(rng))


@entry("squarewaveresponse")
def _(rng, c):
    a = tespars(rng)
    if maybe(rng, 0.4):
        a["dutycycle"] = pick(rng, [0.5, 0.45])
    return fn("core.squarewaveresponse", [{"$": "range", "n": 200, "fs": 1e5}, pick(rng, [5e-7, 1e-6]), pick(rng, [500.0, 1000.0])], a)


# -- cuts ------------------------------------------------------------------------
def values(rng, c, kind="vals"):
    if odd(rng, c):
        return {"$": "vals", "n": pick(rng, [1, 2, 3, 5]), "seed": seed(rng), "how": "normal"}
    return c.var(rng, kind, lambda: {"$": "vals", "n": pick(rng, [20, 60]), "seed": seed(rng), "how": pick(
        rng, ["normal", "skew", "outliers", "ints", "shifted"])})


@entry("removeoutliers")
def _(rng, c):
    a = {}
    if maybe(rng, 0.4):
        a["maxiter"] = pick(rng, [1, 3])
    if maybe(rng, 0.4):
        a["skewtarget"] = pick(rng, [0.01, 0.3])
    return fn("cut.removeoutliers", [layout(rng, values(rng, c))], a)


@entry("iterstat")
def _(rng, c):
    a = {}
    if maybe(rng, 0.6):
        a["cut"] = pick(rng, [2, 3, 1.5]) if not odd(rng, c) else pick(rng, [0.01, 1e-4])
    if maybe(rng, 0.4):
        a["precision"] = pick(rng, [100.0, 10000.0])
    if maybe(rng, 0.4):
        a["return_unbiased_estimates"] = True
    return fn("cut.iterstat", [layout(rng, values(rng, c))], a)


@entry("itercov")
def _(rng, c):
    x = lambda: c.var(rng, "cov", lambda: {"$": "vals", "n": 60, "seed": seed(rng), "how": pick(rng, ["normal", "outliers"])})
    if maybe(rng, 0.5):
        pa = [x(), x()] + ([x()] if maybe(rng, 0.3) else [])
    else:
        pa = [layout(rng, c.var(rng, "covm", lambda: {"$": "noise", "shape": [50, 2], "seed": seed(rng)}))]
    a = {"nsigma": pick(rng, [2.0, 2.75])} if maybe(rng, 0.5) else {}
    if odd(rng, c):
        a["nsigma"] = pick(rng, [1e-6, 0.0, -1.0, 0.1])
    if odd(rng, c):
        pa = pick(rng, [[x()], [], [{"$": "noise", "shape": [4, 5, 2], "seed": seed(rng)}],
                        [x(), {"$": "vals", "n": 7, "seed": 1, "how": "normal"}]])
    return fn("cut.itercov", pa, a)


@entry("symmetrizedist", stochastic=True)
def _(rng, c):
    return fn("cut._cut.symmetrizedist", [layout(rng, values(rng, c, "sym"))], stochastic=True, rng=pick(rng, [7, 11, seed(rng)]))


def algo(rng, a):
    if maybe(rng, 0.5):
        a["outlieralgo"] = pick(rng, ["removeoutliers", "iterstat", "iterstat"] + (["nonsense"] if maybe(rng, 0.1) else []))
    if maybe(rng, 0.3):
        a["nsig"] = pick(rng, [1.5, 3])
    return a


@entry("pileupcut")
def _(rng, c):
    a = algo(rng, {"fs": c.fs})
    if maybe(rng, 0.4):
        a["removemeans"] = True
    return fn("cut._cut.pileupcut", [layout(rng, traces(rng, c, 12))], a)


def didvflags(rng, c, a):
    if maybe(rng, 0.4):
        a.update(is_didv=True, sgfreq=c.fs / pick(rng, [20, 30, c.n]))
    return a


@entry("slopecut", stochastic=True)
def _(rng, c):
    a = didvflags(rng, c, algo(rng, {"fs": c.fs}))
    if maybe(rng, 0.6):
        a["symmetrizeflag"] = True
    return fn("cut._cut.slopecut", [layout(rng, traces(rng, c))], a, stochastic=a.get("symmetrizeflag", False), rng=pick(rng, [7, 11, seed(rng)]))


@entry("baselinecut")
def _(rng, c):
    return fn("cut._cut.baselinecut", [layout(rng, traces(rng, c))], didvflags(rng, c, algo(rng, {"fs": c.fs})))


@entry("chi2cut")
def _(rng, c):
    return fn("cut._cut.chi2cut", [layout(rng, traces(rng, c, 12))], algo(rng, {"fs": c.fs}))


@entry("autocuts", stochastic=True)
def _(rng, c):
    a = didvflags(rng, c, {"fs": c.fs})
    if maybe(rng, 0.5):
        a["symmetrizeflag"] = True
    if maybe(rng, 0.5):
        a["outlieralgo"] = pick(rng, ["removeoutliers", "iterstat"])
    for k in ("lgcpileup1", "lgcslope", "lgcbaseline", "lgcpileup2", "lgcchi2"):
        if maybe(rng, 0.25):
            a[k] = False
    if maybe(rng, 0.3):
        a["nsigslope"] = 1.5
    return fn("cut.autocuts", [layout(rng, traces(rng, c, 14))], a, stochastic=a.get("symmetrizeflag", False), rng=pick(rng, [7, 11, seed(rng)]))


@entry("get_muon_cut")
def _(rng, c):
    x = c.var(rng, "muontraces", lambda: {"$": "cuttraces", "nt": pick(rng, [6, 12]), "n": c.n, "seed": seed(rng), "muons": pick(rng, [2, 4])})
    return fn("cut.get_muon_cut", [layout(rng, x)], {"thresh_pct": pick(rng, [0.5, 0.95]), "nsatbins": pick(rng, [2, 10])})


# -- simulation --------------------------------------------------------------------
@entry("energy_res_estimate")
def _(rng, c):
    return fn("sim.energy_res_estimate", [fgrid(rng), pick(rng, [2e-5, 1e-4]), pick(rng, [1e-34, 2e-34]), pick(rng, [0.2, 0.3])])


NAMES = sorted(CAT)
# calls that cost more than a few milliseconds
SLOW = {"pileupcut", "chi2cut", "autocuts", "iterstat", "resample_data", "align_traces"}


def call(rng, ctx, names=None):
    n = pick(rng, names or NAMES)
    return CAT[n][0](rng, ctx)


def vary(rng, op):
    """The same call with one number or flag changed: what is remembered from a call
    must be bound to all of its arguments."""
    op = dict(op, pa=list(op["pa"]), a=dict(op["a"]))
    at = [(op["pa"], i) for i, v in enumerate(op["pa"]) if isinstance(v, (int, float))]
    at += [(op["a"], k) for k, v in sorted(op["a"].items()) if isinstance(v, (int, float))]
    if at:
        d, k = pick(rng, at)
        v = d[k]
        if isinstance(v, bool):
            d[k] = not v
        elif isinstance(v, int):
            d[k] = max(1, v + pick(rng, [-1, 1, 2]))
        else:
            d[k] = v * pick(rng, [0.5, 2.0, 1.25])
    return op
