"""Logical-state models of the stateful classes: which operations change the
logical state, which canonical call sequence reproduces it on a fresh object, what
a failed operation may leave behind; plus the seeded workload generators."""


class Model:
    """State = any JSON value; None = unspecified."""
    cls = None

    def init(self):
        return []

    def canon(self, st, op):
        """Operations that bring a fresh object to `st` as far as `op` can tell;
        None = outcome unspecified; {"alts": [...]} = any of these."""
        return st

    def canon_unknown(self, op):
        """Same for an unspecified state (operations that determine everything)."""
        return None

    def advance(self, st, op):
        return st

    def after_reject(self, st, op):
        """State after the operation raised although no fault was injected."""
        return st

    def after_fault(self, bel, op, kind):
        return bel

    def rtol(self, op, default):
        return default

    def absolute(self, op, bel, out):
        """What is wrong with `out` whatever a fresh object answers, or None."""
        return None


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def maybe(rng, p):
    return rng.random() < p


def seed(rng):
    return rng.randrange(1, 1 << 30)


# --------------------------------------------------------------------------
class OF(Model):
    cls = "core.OptimumFilter"

    def advance(self, mut, op):
        return [op] if op["m"] == "update_signal" else mut

    def after_fault(self, bel, op, kind):
        if op["m"] != "update_signal":
            return bel
        if kind == "alloc":
            return bel + [[op]]
        return [None]

    def canon_unknown(self, op):
        return [] if op["m"] == "update_signal" else None

    # workload
    def meta(self, rng):
        n = pick(rng, [64, 65, 100, 128, 255, 256, 500, 501, 1000])
        fs = pick(rng, [1e4, 1e5, 625e3, 1.25e6])
        dt = 1 / fs
        return {"n": n, "fs": fs, "tr": dt * pick(rng, [1.5, 3, 6]),
                "tf": dt * n / pick(rng, [6, 10, 25]), "sig": pick(rng, [1e-9, 3e-8, 1.0]),
                "pool": [], "coupling": pick(rng, ["AC", "AC", "DC"])}

    def trace(self, rng, me, wild=True):
        n = me["n"]
        if me["pool"] and maybe(rng, 0.45):
            base = pick(rng, me["pool"])
            if maybe(rng, 0.25):
                return base
            r = {"$": "twin", "of": base, "how": pick(rng, ["neg", "rev", "roll", "perm", "scale", "mid", "tiny"]),
                 "k": pick(rng, [2, 7, n // 3, -1]), "seed": rng.randrange(5)}
        else:
            s = me["sig"]
            np_ = pick(rng, [0, 1, 1, 1, 2])
            r = {"$": "trace", "n": n, "fs": me["fs"], "tr": me["tr"], "tf": me["tf"], "sigma": s,
                 "seed": seed(rng), "offset": pick(rng, [0.0, 5 * s, -200 * s]),
                 "slope": pick(rng, [0.0, 0.0, 3 * s]),
                 "pulses": [[s * pick(rng, [5, 30, -40, 300]), pick(rng, [0, 0, 1, 3, -11, n // 4, -n // 3])]
                            for _ in range(np_)]}
            if len(me["pool"]) < 5:
                me["pool"].append(r)
        if wild and maybe(rng, 0.12):
            r = dict(r)
            r["as"] = pick(rng, ["f32", "strided", "int"])
        if maybe(rng, 0.3):
            return {"$": "inbuf", "k": rng.randrange(2), "val": r}
        return r

    def ctor(self, rng, me, name):
        a = {"signal": self.trace(rng, me), "template": {"$": "template", "n": me["n"], "fs": me["fs"],
                                                          "tr": me["tr"], "tf": me["tf"]},
             "psd": {"$": "psd", "n": me["n"], "fs": me["fs"], "level": me["sig"] ** 2 / me["fs"],
                     "seed": pick(rng, [None, 3, seed(rng)]), "lowf": pick(rng, [0, 5.0]),
                     "fc": me["fs"] / pick(rng, [4, 8, 30])},
             "fs": me["fs"]}
        if me["coupling"] != "AC" or maybe(rng, 0.3):
            a["coupling"] = me["coupling"]
        if maybe(rng, 0.2):
            a["integralnorm"] = True
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}

    def update(self, rng, me, name):
        if maybe(rng, 0.06):
            bad = dict(me)
            bad["n"] = pick(rng, [me["n"] + 1, me["n"] // 2, 2 * me["n"]])
            bad["pool"] = []
            return {"o": name, "m": "update_signal", "a": {"signal": self.trace(rng, bad, False)}}
        return {"o": name, "m": "update_signal", "a": {"signal": self.trace(rng, me)}}

    def query(self, rng, me, name):
        n, fs, s = me["n"], me["fs"], me["sig"]
        m = pick(rng, ["ofamp_withdelay"] * 4 + ["ofamp_nodelay"] * 3 + ["ofamp_pileup_iterative"] * 3 +
                 ["ofamp_pileup_stationary"] * 2 + ["ofamp_baseline"] * 2 + ["chi2_nopulse"] * 2 +
                 ["chi2_lowfreq"] * 2 + ["energy_resolution", "time_resolution"])
        a = {}
        wc = [0, 0, 1, -1, 5, -17, n // 4, -(n // 4)]
        nc = [None, 1, 2, 5, 20, n // 3, n - 1, n, n + 100]
        if m in ("ofamp_withdelay", "ofamp_pileup_iterative", "ofamp_baseline", "ofamp_pileup_stationary"):
            if maybe(rng, 0.6):
                a["nconstrain"] = pick(rng, nc)
            if maybe(rng, 0.4):
                a["lgcoutsidewindow"] = pick(rng, [True, False])
            if maybe(rng, 0.35):
                a["windowcenter"] = pick(rng, wc)
            if m != "ofamp_pileup_stationary":
                if maybe(rng, 0.4):
                    a["pulse_direction_constraint"] = pick(rng, [1, -1, 0, 1, -1, 2])
                if maybe(rng, 0.3):
                    a["interpolate_t0"] = True
        if m == "ofamp_pileup_iterative":
            a["a1"] = s * pick(rng, [30, -40, 5.5, 0.0])
            a["t1"] = pick(rng, [0.0, 1 / fs, -11 / fs, (n // 4) / fs, 2.4 / fs])
        if m == "ofamp_nodelay" and maybe(rng, 0.6):
            a["windowcenter"] = pick(rng, wc)
        if m == "chi2_lowfreq":
            a = {"amp": s * pick(rng, [0.0, 30, -40]), "t0": pick(rng, [0.0, 3 / fs, -11 / fs]),
                 "fcutoff": fs * pick(rng, [0.01, 0.05, 0.2, 1.0])}
            if maybe(rng, 0.3):
                del a["fcutoff"]
        if m == "time_resolution":
            a = {"amp": s * pick(rng, [1, 30, -40])}
        return {"o": name, "m": m, "a": a}

    # canonical list of queries used as final observation
    def observe_all(self, rng, me, name):
        s, fs = me["sig"], me["fs"]
        qs = [("chi2_nopulse", {}), ("ofamp_nodelay", {}), ("ofamp_withdelay", {}),
              ("ofamp_pileup_stationary", {}), ("ofamp_baseline", {}),
              ("ofamp_pileup_iterative", {"a1": 30 * s, "t1": 1 / fs}),
              ("ofamp_nodelay", {"windowcenter": 5}), ("chi2_lowfreq", {"amp": s, "t0": 0.0, "fcutoff": fs * 0.1}),
              ("energy_resolution", {}), ("time_resolution", {"amp": s})]
        rng.shuffle(qs)
        return [{"o": name, "m": m, "a": a} for m, a in qs]


BY_CLS = {}


def register(m):
    BY_CLS[m.cls] = m
    return m


def of(ctor):
    if len(BY_CLS) < 2:
        _load_all()
    return BY_CLS[ctor["cls"]]


M_OF = register(OF())


def _load_all():
    from . import models_didv, models_fit, models_iv, models_noise  # noqa: F401


