"""Non-linear pulse fitter, muon-tail fitter, TES noise model."""
from .models import Model, maybe, pick, register, seed

PURE = ("fourpole", "fourpoletime", "threepole", "threepoletime", "muontailfcn")


class Fitter(Model):
    """State: the last successful fit as op list, [] if none, None after a failed fit."""

    def canon(self, st, op):
        m = op["m"]
        if m == self.fit or m in PURE:
            return []
        if m == "@obs":
            return st
        if m in ("onepole", "onepoletime"):
            # refer to the rise time of a one-pole fit only
            if not st:
                return st
            return st if st[0]["a"].get("npolefit", 1) == 1 else None
        return st

    def canon_unknown(self, op):
        return [] if op["m"] == self.fit or op["m"] in PURE else None

    def advance(self, st, op):
        if op["m"] == self.fit:
            st = {k: v for k, v in op.items() if k not in ("fault", "tag", "budget", "plot")}
            st["a"] = {k: v for k, v in op["a"].items() if k != "lgcplot"}
            return [st]
        return st

    def after_reject(self, st, op):
        return None if op["m"] == self.fit else st

    def after_fault(self, bel, op, kind):
        return [None] if op["m"] == self.fit else bel

    def rtol(self, op, default):
        return 1e-7


class NonLin(Fitter):
    cls = "OFnonlin"
    fit = "fit_falltimes"

    def meta(self, rng):
        fs = pick(rng, [625e3, 625e3, 1.25e6])
        return {"n": pick(rng, [128, 200, 201, 256]), "fs": fs, "sig": pick(rng, [1e-9, 1.0]),
                "tr": 20e-6 * pick(rng, [0.5, 1.0]), "tf": pick(rng, [40e-6, 66e-6]), "pool": []}

    def pulse(self, rng, me):
        s = me["sig"]
        if me["pool"] and maybe(rng, 0.5):
            b = pick(rng, me["pool"])
            if maybe(rng, 0.4):
                return b
            return {"$": "twin", "of": b, "how": pick(rng, ["scale", "tiny", "mid", "neg"]), "k": pick(rng, [2.0, 0.5])}
        r = {"$": "trace", "n": me["n"], "fs": me["fs"], "tr": me["tr"], "tf": me["tf"], "sigma": s, "seed": seed(rng),
             "pulses": [[s * pick(rng, [50, 300]), pick(rng, [0, 3, -11])]]}
        if len(me["pool"]) < 4:
            me["pool"].append(r)
        return r

    def ctor(self, rng, me, name):
        a = {"psd": {"$": "psd", "n": me["n"], "fs": me["fs"], "level": me["sig"] ** 2 / me["fs"], "seed": pick(rng, [None, 5])},
             "fs": me["fs"]}
        if maybe(rng, 0.35):
            a["template"] = {"$": "template", "n": me["n"], "fs": me["fs"], "tr": me["tr"], "tf": me["tf"]}
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}

    def params(self, rng, me, npole):
        s, tr, tf, t0 = me["sig"], me["tr"], me["tf"], (me["n"] // 2 + pick(rng, [0, 3, -11])) / me["fs"]
        A = s * pick(rng, [40.0, 200.0])
        return {1: [A, tf, t0], 2: [A, tr, tf, t0], 3: [A, A / 3, tr, tf, 3 * tf, t0],
                4: [A, A / 3, A / 3, tr, tf, 3 * tf, 5 * tf, t0]}[npole]

    def fitop(self, rng, me, name, bad=0.1):
        np_ = pick(rng, [1, 1, 2, 2, 2, 3] if maybe(rng, 0.93) else [4])
        a = {"pulse": self.pulse(rng, me), "npolefit": np_}
        if np_ == 1:
            if not maybe(rng, bad):
                a["taurise"] = me["tr"] * pick(rng, [1.0, 1.5])
        elif maybe(rng, 0.1):
            a["taurise"] = 2 * me["tr"]
        if maybe(rng, 0.5):
            a["guess"] = {"$": "tuple", "v": self.params(rng, me, pick(rng, [1, 2, 3]) if maybe(rng, bad) else np_)}
            if maybe(rng, 0.25):
                p = a["guess"]["v"]
                a["bounds"] = {"$": "tuple", "v": [{"$": "tuple", "v": [x / 20 for x in p]}, {"$": "tuple", "v": [x * 20 for x in p]}]}
        if maybe(rng, 0.3):
            a["errscale"] = pick(rng, [1, 10, 100])
        if maybe(rng, 0.35):
            a["scale_amplitude"] = maybe(rng, 0.4)
        if maybe(rng, 0.6):
            a["lgcfullrtn"] = True
        if np_ == 1 and maybe(rng, 0.2):
            del a["npolefit"]
        return {"o": name, "m": self.fit, "a": a}

    def evalop(self, rng, me, name):
        r = rng.random()
        if r < 0.2:
            return {"o": name, "m": "@obs", "attrs": ["data", "error", "npolefit", "scale_amplitude", "dof"], "noret": True}
        if r < 0.3:
            return {"o": name, "m": "@obs", "attrs": ["psd", "fs", "df", "freqs", "time", "norm", "template"]}
        if r < 0.4:
            return {"o": name, "m": "residuals", "pa": [{"$": "tuple", "v": self.params(rng, me, pick(rng, [1, 2, 3]))}]}
        if r < 0.5:
            return {"o": name, "m": "calcchi2", "pa": [{"$": "arr", "v": [0.0] * me["n"], "dtype": "complex"}]}
        np_ = pick(rng, [1, 2, 2, 3, 4])
        m = {1: "onepole", 2: "twopole", 3: "threepole", 4: "fourpole"}[np_] + pick(rng, ["", "time"])
        return {"o": name, "m": m, "pa": self.params(rng, me, np_)}


class Muon(Fitter):
    cls = "MuonTailFit"
    fit = "fitmuontail"

    def meta(self, rng):
        return {"n": pick(rng, [100, 201, 256]), "fs": pick(rng, [1e4, 625e3]), "sig": pick(rng, [1e-9, 1.0]), "pool": []}

    def pulse(self, rng, me):
        s, n, fs = me["sig"], me["n"], me["fs"]
        if me["pool"] and maybe(rng, 0.5):
            b = pick(rng, me["pool"])
            return b if maybe(rng, 0.4) else {"$": "twin", "of": b, "how": pick(rng, ["scale", "tiny", "mid"]), "k": pick(rng, [2.0, 0.5])}
        r = {"$": "muon", "n": n, "fs": fs, "tau": n / fs * pick(rng, [0.1, 0.3]), "amp": s * pick(rng, [50, 400]), "sigma": s,
             "seed": seed(rng)}
        if len(me["pool"]) < 4:
            me["pool"].append(r)
        return r

    def ctor(self, rng, me, name):
        return {"o": name, "m": "@new", "cls": self.cls, "a": {
            "psd": {"$": "psd", "n": me["n"], "fs": me["fs"], "level": me["sig"] ** 2 / me["fs"], "seed": pick(rng, [None, 5])},
            "fs": me["fs"]}}

    def fitop(self, rng, me, name, bad=0.1):
        a = {"signal": self.pulse(rng, me)}
        if maybe(rng, bad):
            a["signal"] = pick(rng, [{"$": "full", "shape": [me["n"]], "v": 0.0},
                                     dict(self.pulse(rng, dict(me, n=me["n"] - 1, pool=[])))])
        if maybe(rng, 0.6):
            a["lgcfullrtn"] = True
        if maybe(rng, 0.4):
            a["errscale"] = pick(rng, [1, 10, 100])
        return {"o": name, "m": self.fit, "a": a}

    def evalop(self, rng, me, name):
        r = rng.random()
        p = [me["sig"] * pick(rng, [10.0, 100.0]), me["n"] / me["fs"] * 0.2]
        if r < 0.3:
            return {"o": name, "m": "@obs", "attrs": ["data", "error"], "noret": True}
        if r < 0.4:
            return {"o": name, "m": "@obs", "attrs": ["psd", "fs", "df", "freqs", "time", "norm"]}
        if r < 0.6:
            return {"o": name, "m": "residuals", "pa": [{"$": "tuple", "v": p}]}
        if r < 0.8:
            return {"o": name, "m": "calcchi2", "pa": [{"$": "arr", "v": [0.0] * me["n"], "dtype": "complex"}]}
        return {"o": name, "m": "muontailfcn", "pa": p}


TES_METHODS = ["dIdV", "dIdP", "s_vload", "s_iload", "s_pload", "s_vtes", "s_ites", "s_ptes", "s_ptfn", "s_itfn", "s_isquid",
               "s_psquid", "s_itot", "s_ptot", "dIdVnormal", "s_iloadnormal", "s_vtesnormal", "s_itesnormal", "s_itotnormal",
               "dIdVsc", "s_iloadsc", "s_itotsc"]


class TES(Model):
    cls = "sim.TESnoise"

    def canon(self, st, op):
        return []

    def meta(self, rng):
        return {}

    def freqs(self, rng):
        return {"$": "linspace", "a": pick(rng, [1.0, 10.0]), "b": pick(rng, [1e3, 1e5]), "n": pick(rng, [5, 12, 30])}

    def ctor(self, rng, me, name):
        a = {}
        if maybe(rng, 0.8):
            a["freqs"] = self.freqs(rng)
        for k, vs in (("rload", [0.01, 0.02]), ("r0", [0.1, 0.2]), ("beta", [0.5, 1.0]), ("loopgain", [5.0, 15.0]),
                      ("inductance", [2e-7, 5e-7]), ("tau0", [3e-4, 6e-4]), ("G", [3e-10, 6e-10]), ("tc", [0.04, 0.06]),
                      ("tload", [0.5, 0.9]), ("tbath", [0.01, 0.02]), ("n", [4.0, 5.0]), ("lgcb", [True, False]),
                      ("squiddc", [2e-12, 3e-12]), ("squidpole", [0.0, 100.0]), ("squidn", [1.0, 1.3]), ("qetbias", [1e-4, 2e-4])):
            if maybe(rng, 0.3):
                a[k] = pick(rng, vs)
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}

    def query(self, rng, me, name):
        a = {}
        r = rng.random()
        if r < 0.4:
            a["freqs"] = self.freqs(rng)
        elif r < 0.5:
            a["freqs"] = 100.0
        return {"o": name, "m": pick(rng, TES_METHODS), "a": a}

    def obs(self, rng, name):
        return {"o": name, "m": "@obs", "attrs": ["freqs", "rload", "r0", "rshunt", "beta", "loopgain", "inductance", "tau0", "G",
                                                  "qetbias", "i0", "tc", "tload", "tbath", "n", "lgcb", "squiddc", "squidpole",
                                                  "squidn", "f_tfn"]}


M_NL = register(NonLin())
M_MU = register(Muon())
M_TES = register(TES())
