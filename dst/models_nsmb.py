"""Multi-signal/multi-background filter: op generators over one shared set-up."""
from .models import maybe, pick, seed


def meta(rng):
    ttl = maybe(rng, 0.4)
    fs = 625e3
    me = {"n": pick(rng, [64, 65, 96, 128]), "fs": fs, "sig": pick(rng, [1e-9, 1.0]), "ttl": ttl, "pool": [],
          "tr": 2 / fs, "tf": 12 / fs, "seed": pick(rng, [None, 3]), "k": 0}
    if ttl:
        me["n"] = pick(rng, [64, 96])
    return me


def template(me):
    return {"$": "template", "n": me["n"], "fs": me["fs"], "tr": me["tr"], "tf": me["tf"], "t0": -(me["n"] // 2)}


def trace(rng, me):
    s = me["sig"]
    if me["pool"] and maybe(rng, 0.5):
        b = pick(rng, me["pool"])
        return b if maybe(rng, 0.4) else {"$": "twin", "of": b, "how": pick(rng, ["neg", "roll", "scale", "mid", "tiny"]), "k": 2}
    n = me["n"]
    r = {"$": "trace", "n": n, "fs": me["fs"], "tr": me["tr"], "tf": me["tf"], "sigma": s, "seed": seed(rng),
         "offset": pick(rng, [0.0, 20 * s]), "slope": pick(rng, [0.0, 30 * s]),
         "pulses": [[s * pick(rng, [30, -40, 200]), pick(rng, [0, 5, -n // 3])] for _ in range(pick(rng, [0, 1, 1, 2]))]}
    if len(me["pool"]) < 4:
        me["pool"].append(r)
    return r


def K(k, *ix, T=False):
    r = {"$": "keep", "k": k, "ix": list(ix)}
    if T:
        r["T"] = True
    return r


def setup(rng, me, tag="S"):
    """Operations building one set-up (kept values tag+...)."""
    n, fs = me["n"], me["fs"]
    ops = []
    if me["ttl"]:
        ops.append({"m": "@fn", "f": "core.maketemplate_ttlfit_nsmb", "keep": tag + "t",
                    "pa": [template(me), fs, fs / n * 1.5 * pick(rng, [1, 1, 2])],
                    "a": {"lgcconstrainpolarity": maybe(rng, 0.6), "lgcpositivepolarity": maybe(rng, 0.5),
                          "notch_window_size": pick(rng, [0, 1])}})
    else:
        ops.append({"m": "@fn", "f": "core.get_slope_dc_template_nsmb", "pa": [n], "keep": tag + "t"})
    ops.append({"m": "@fn", "f": "core.of_nsmb_setup", "keep": tag + "s", "pa": [
        template(me), K(tag + "t", 0), {"$": "psd", "n": n, "fs": fs, "level": me["sig"] ** 2 / fs, "seed": me["seed"]}, fs]})
    ops.append({"m": "@fn", "f": "core.of_nsmb_getiP", "pa": [K(tag + "s", 3)], "keep": tag + "i"})
    win = maybe(rng, 0.5)
    v = list(range(n)) if win else (list(range(-pick(rng, [3, 8]), 10)) if maybe(rng, 0.7) else list(range(0, n + 5)))
    me["wl"] = v
    return ops


def window(rng, me, con=False):
    v = list(range(1, me["n"] - 2)) if con else me["wl"]
    w = [{"$": "arr", "v": [v], "dtype": "int"}]
    if con:
        for _ in range(pick(rng, [0, 0, 1, 2])):
            a = rng.randrange(3, me["n"] // 2)
            w.append({"$": "arr", "v": list(range(a, a + 12)), "dtype": "int"})
    return w


def query(rng, me, tag="S", con=0.12):
    S = tag + "s"
    f = "core.of_nsmb_con" if maybe(rng, con) else pick(rng, ["core.of_nsmb", "core.of_nsmb", "core.of_mb"])
    s = trace(rng, me)
    if maybe(rng, 0.05):
        s = {"$": "trace", "n": me["n"] - 3, "fs": me["fs"], "tr": me["tr"], "tf": me["tf"], "sigma": me["sig"], "seed": 5}
    lf = pick(rng, [None, 5, 500])
    pol = lambda n: {"$": "arr", "v": [pick(rng, [0.0, 0.0, 1.0, -1.0]) for _ in range(n)]}
    a = {}
    if lf:
        a["lfindex"] = lf
    if f == "core.of_nsmb":
        pa = [s, K(S, 1), K(S, 4, T=True), K(S, 5), K(tag + "i"), K(S, 0, T=True), me["fs"], window(rng, me), K(S, 8), K(S, 9), K(S, 10)]
    elif f == "core.of_mb":
        pa = [s, K(S, 1), K(S, 4, T=True), K(S, 5), K(S, 6), K(S, 7), K(S, 0, T=True), me["fs"], K(S, 8), K(S, 9)]
        if maybe(rng, 0.4):
            a["bkgpolarityconstraint"] = K(tag + "t", 2) if me["ttl"] and maybe(rng, 0.5) else \
                pol(2 if not me["ttl"] else 3)
    else:
        w = window(rng, me, True) if not me["ttl"] or maybe(rng, 0.6) else K(tag + "t", 3)
        pa = [s, K(S, 1), K(S, 2), K(S, 3), K(S, 4, T=True), K(S, 5), K(S, 0, T=True), me["fs"], w, K(S, 8), K(S, 9), K(S, 10)]
        if maybe(rng, 0.5):
            a["sigpolarityconstraint"] = pol(1)
        if me["ttl"] and maybe(rng, 0.6):
            a["bkgpolarityconstraint"] = K(tag + "t", 2)
        elif maybe(rng, 0.4):
            a["bkgpolarityconstraint"] = pol(2 if not me["ttl"] else 3)
    return {"m": "@fn", "f": f, "pa": pa, "a": a}
