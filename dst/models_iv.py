"""IV and IBIS sweeps."""
from .models import Model, maybe, pick, register, seed

ATTRS_IV = ["ioff", "ioff_err", "rfit", "rfit_err", "rnorm", "rnorm_err", "ites", "ites_err", "r0", "r0_err",
            "ptes", "ptes_err"]
ATTRS_IBIS = ATTRS_IV + ["ibias_off", "ibias_off_err", "ibias_true", "ibias_true_err", "rp", "rp_err", "vb", "vb_err"]
PLOTS = ["plot_iv", "plot_rv", "plot_pv", "plot_all_curves"]


class Sweep(Model):
    """State: the last successful analysis operation, [] if none, "?" unknown."""

    def canon(self, st, op):
        if op["m"] == self.analyse:
            return []
        return None if st == "?" else st

    def advance(self, st, op):
        if op["m"] == self.analyse:
            return [{k: v for k, v in op.items() if k not in ("fault", "tag", "budget")}]
        return st

    def after_fault(self, bel, op, kind):
        if op["m"] != self.analyse:
            return bel
        if kind == "alloc":
            return bel + [self.advance(b, op) for b in bel]
        new = self.advance([], op)
        # repeating the analysis already in force rewrites the same values
        return [b if b == new else "?" for b in bel]

    def rtol(self, op, default):
        return 1e-6

    def meta(self, rng):
        nt, nc = pick(rng, [1, 1, 2, 3]), pick(rng, [1, 2, 3])
        return {"shape": [nt, nc, pick(rng, [13, 15, 18])], "seed": seed(rng), "rsh": 5e-3}

    def obs(self, rng, name, every=False):
        at = list(self.attrs)
        if not every and maybe(rng, 0.5):
            rng.shuffle(at)
            at = sorted(at[:pick(rng, [3, 6])])
        return {"o": name, "m": "@obs", "attrs": at}

    def plot(self, rng, me, name):
        nt, nc, n = me["shape"]
        m = pick(rng, PLOTS)
        a = {}
        if maybe(rng, 0.5):
            a["temps"] = pick(rng, ["all", [0], [nt - 1], [0, nt + 2], [nt - 1, 0]])
        if maybe(rng, 0.5):
            a["chans"] = pick(rng, ["all", [0], [nc - 1], [nc - 1, 0], list(range(nc))[::-1]])
        if m in ("plot_iv", "plot_all_curves") and maybe(rng, 0.5):
            a["showfit"] = maybe(rng, 0.5)
        return {"o": name, "m": m, "a": a, "plot": True}


class IBIS(Sweep):
    cls = "IBIS"
    analyse = "analyze"
    attrs = ATTRS_IBIS

    def ctor(self, rng, me, name):
        nt, nc, n = me["shape"]
        y = {"$": "sweep", "shape": me["shape"], "seed": me["seed"], "what": "y", "rsh": me["rsh"]}
        if maybe(rng, 0.06):
            y["nans"] = [[rng.randrange(nt), rng.randrange(nc), n - 1]]
        a = {"dites": y, "dites_err": {"$": "full", "shape": me["shape"], "v": 2e-9},
             "ibias": {"$": "sweep", "shape": me["shape"], "seed": me["seed"], "what": "x", "rsh": me["rsh"]},
             "ibias_err": {"$": "full", "shape": me["shape"], "v": pick(rng, [0.0, 1e-9])},
             "rsh": me["rsh"], "rsh_err": 5e-4, "chan_names": [f"ch{c}" for c in range(nc)],
             "normalinds": [0, 1, 2, 3], "scinds": [n - 3, n - 2, n - 1], "fitsc": maybe(rng, 0.7)}
        if maybe(rng, 0.3):
            a["rp_guess"] = {"$": "full", "shape": [nt, nc], "v": 6.5e-3}
            a["rp_err_guess"] = {"$": "full", "shape": [nt, nc], "v": 1e-4}
        else:
            a["rp_guess"], a["rp_err_guess"] = 6e-3, 1e-4
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}

    def ana(self, rng, me, name):
        a = {}
        if maybe(rng, 0.45):
            a["yoff"] = {"$": "full", "shape": me["shape"], "v": pick(rng, [1e-6, -2e-6])}
            if maybe(rng, 0.85):
                a["yoff_err"] = {"$": "full", "shape": me["shape"], "v": 1e-9}
        if maybe(rng, 0.35):
            a["xoff"] = {"$": "full", "shape": me["shape"], "v": pick(rng, [1e-6, -2e-6])}
            if maybe(rng, 0.85):
                a["xoff_err"] = {"$": "full", "shape": me["shape"], "v": 1e-9}
        return {"o": name, "m": "analyze", "a": a}


class IV(Sweep):
    cls = "IV"
    analyse = "calc_iv"
    attrs = ATTRS_IV

    # State: the attributes assigned since construction (last value of each), and the
    # operations of the last successful analysis.
    def init(self):
        return {"set": {}, "ana": []}

    def assigned(self, a):
        return [{"o": "", "m": "assign", "a": a}] if a else []

    def canon(self, st, op):
        if op["m"] == self.analyse:
            return self.assigned(st["set"])
        return None if st["ana"] == "?" else st["ana"] + self.assigned(st["set"])

    def advance(self, st, op):
        if op["m"] == "assign":
            return dict(st, set=dict(st["set"], **op["a"]))
        if op["m"] == self.analyse:
            return dict(st, ana=self.assigned(st["set"]) + [{"o": op["o"], "m": self.analyse, "a": {}}])
        return st

    def after_fault(self, bel, op, kind):
        if op["m"] != self.analyse:
            return bel
        new = [self.advance(b, op) for b in bel]
        if kind == "alloc":
            return bel + new
        return [b if b == n else dict(b, ana="?") for b, n in zip(bel, new)]

    def assign(self, rng, me, name):
        """Other data, or another idea of where the device is normal."""
        nt, nc, n = me["shape"]
        k = pick(rng, ["dites", "dites", "dites", "normalinds", "dites_err", "rload"])
        if k == "dites":
            v = {"$": "sweep", "shape": me["shape"], "seed": seed(rng), "what": "y", "rsh": me["rsh"]}
            if maybe(rng, 0.15):
                v["nans"] = [[rng.randrange(nt), rng.randrange(nc), pick(rng, [1, n - 1])]]
        elif k == "normalinds":
            v = pick(rng, [None, None, [0, 1, 2, 3], [0, 1, 2]])
        elif k == "dites_err":
            v = {"$": "full", "shape": me["shape"], "v": pick(rng, [2e-9, 5e-9])}
        else:
            v = {"$": "full", "shape": me["shape"], "v": pick(rng, [1.1e-2, 1.3e-2])}
        return {"o": name, "m": "assign", "a": {k: v}}

    def ctor(self, rng, me, name):
        nt, nc, n = me["shape"]
        a = {"dites": {"$": "sweep", "shape": me["shape"], "seed": me["seed"], "what": "y", "rsh": me["rsh"]},
             "dites_err": {"$": "full", "shape": me["shape"], "v": 2e-9},
             "vb": {"$": "sweep", "shape": me["shape"], "seed": me["seed"], "what": "x", "vb": True, "rsh": me["rsh"]},
             "vb_err": {"$": "full", "shape": me["shape"], "v": pick(rng, [0.0, 1e-11])},
             "rload": 1.1e-2, "rload_err": 1e-4, "chan_names": [f"ch{c}" for c in range(nc)]}
        r = rng.random()
        if r < 0.3:
            a["rload"] = {"$": "full", "shape": [nc], "v": 1.1e-2}
            a["rload_err"] = {"$": "full", "shape": [nc], "v": 1e-4}
        elif r < 0.5:
            a["rload"] = {"$": "full", "shape": [nt, nc], "v": 1.1e-2}
            a["rload_err"] = {"$": "full", "shape": [nt, nc], "v": 1e-4}
        if maybe(rng, 0.5):
            a["normalinds"] = [0, 1, 2, 3]
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}

    def ana(self, rng, me, name):
        return {"o": name, "m": "calc_iv", "a": {}}


M_IBIS = register(IBIS())
M_IV = register(IV())
