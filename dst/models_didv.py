"""dIdV objects (with and without priors)."""
from .models import Model, maybe, pick, register, seed

OBS = [["_tmean", "_offset", "_offset_err", "_didvmean", "_didvstd", "_freq", "_time", "_ntraces"],
       ["_dt0", "_flatinds", "_zeroinds", "_traces"]]
PLOTS = ["plot_full_trace", "plot_single_period_of_trace", "plot_zoomed_in_trace", "plot_didv_flipped",
         "plot_re_im_didv", "plot_abs_phase_didv", "plot_re_vs_im_dvdi"]


class DIDV(Model):
    """State {"p": processed, "1"/"2": fit op, "3": [2-pole fit at that time, op]};
    "?" = unknown until redone."""
    cls = "DIDV"
    priors = False
    fromdata = False

    def init(self):
        return {"p": self.fromdata, "1": None, "2": None, "3": None}

    def _seq(self, st):
        """Canonical sequence giving all slots, or None."""
        if "?" in (st["1"], st["2"], st["3"]):
            return None
        out = []
        if st["3"]:
            if st["3"][0]:
                out.append(st["3"][0])
            out.append(st["3"][1])
        if st["2"] and not (st["3"] and st["3"][0] == st["2"]):
            out.append(st["2"])
        if st["1"]:
            out.append(st["1"])
        if st["2"] is None and st["3"] and st["3"][0]:
            return None
        return out

    def _fit(self, st, k):
        s = st[str(k)]
        if s == "?":
            return None
        if s is None:
            return []
        return [x for x in s if x] if k == 3 else [s]

    def canon(self, st, op):
        m = op["m"]
        if m == "fitresult":
            k = op["a"]["poles"]
            return self._fit(st, k) if k in (1, 2, 3) else []
        if m == "dofit":
            if st["p"] == "?" and self.fromdata:
                return None
            if op["a"].get("poles") == 3 and not self.priors:
                return None if st["2"] == "?" else ([st["2"]] if st["2"] else [])
            return []
        if m == "processtraces":
            return []
        if m == "@obs":
            if st["p"] == "?":
                return None
            return [{"o": op["o"], "m": "processtraces", "a": {}}] if st["p"] and not self.fromdata else []
        if m.startswith("plot_"):
            seq = self._seq(st)
            if seq is None or st["p"] == "?":
                return None
            if not seq and st["p"] and not self.fromdata:
                return [{"o": op["o"], "m": "processtraces", "a": {}}]
            return seq
        if m == "@dep":
            seq = self._seq(st)
            if seq == [] and st["p"] is True and not self.fromdata:
                seq = [{"o": op["o"], "m": "processtraces", "a": {}}]
            return seq
        return []

    def canon_unknown(self, op):
        return None

    def advance(self, st, op):
        m = op["m"]
        if m == "processtraces":
            return dict(st, p=True)
        if m == "dofit":
            op = {k: v for k, v in op.items() if k not in ("fault", "tag", "budget")}
            k = op["a"].get("poles")
            st = dict(st, p=True)
            if k == 3:
                st["3"] = "?" if st["2"] == "?" and not self.priors else [None if self.priors else st["2"], op]
            elif k in (1, 2):
                st[str(k)] = op
            return st
        return st

    def after_reject(self, st, op):
        if op["m"] in ("dofit", "processtraces") and st["p"] is not True and not self.fromdata:
            return dict(st, p="?")
        return st

    def after_fault(self, bel, op, kind):
        m = op["m"]
        if m not in ("dofit", "processtraces"):
            return bel
        out = []
        for b in bel:
            if kind == "alloc":
                if m == "processtraces":
                    out += [b, dict(b, p=True)]
                else:
                    out += [b, dict(b, p=b["p"] if b["p"] == "?" else True), self.advance(b, op)]
            else:
                b = dict(b)
                if b["p"] is not True:
                    b["p"] = "?"
                if m == "dofit" and op["a"].get("poles") in (1, 2, 3):
                    b[str(op["a"]["poles"])] = "?"
                out.append(b)
        return out

    def rtol(self, op, default):
        return 1e-6

    def absolute(self, op, bel, out):
        if op["m"] == "fitresult" and op["a"]["poles"] in (1, 2, 3) and all(b is not None and b[str(op["a"]["poles"])] is None for b in bel):
            if out["s"] != "ok":
                return f"raised {out['t']} for a fit that was not performed instead of giving an empty result"
            if not (isinstance(out["v"], dict) and not out["v"]):
                return f"gave {str(out['v'])[:80]} for a fit that was not performed"
        return None

    # -- workload -------------------------------------------------------------
    def meta(self, rng):
        fs = pick(rng, [1e5, 1e5, 2e5])
        sgf = pick(rng, [200.0, 250.0, 400.0])
        per = int(fs / sgf)
        n = int(per * pick(rng, [2, 2.3, 3, 3.7])) if per < 600 else int(per * 2.2)
        return {"fs": fs, "sgfreq": sgf, "n": n, "nt": pick(rng, [3, 5, 9]), "sgamp": 5e-7, "rsh": 5e-3,
                "poles": pick(rng, [2, 3, 3, 3]), "add": maybe(rng, 0.35), "seed": seed(rng),
                "A": 0.2378 * pick(rng, [1, 1.2]), "B": -0.336 * pick(rng, [1, 0.8])}

    def raw(self, me, **kw):
        r = {"$": "didv", "nt": me["nt"], "fs": me["fs"], "sgfreq": me["sgfreq"], "n": me["n"], "sgamp": me["sgamp"],
             "rsh": me["rsh"], "A": me["A"], "B": me["B"], "tau1": -5.55e-5, "tau2": 4.2e-7, "sigma": 1e-9,
             "seed": me["seed"], "dt": 5e-6 if not me["add"] else 5e-6}
        if me["poles"] == 3:
            r["C"] = -0.0556
        if me["add"]:
            r["flip"] = True
        r.update(kw)
        return r

    def ctor(self, rng, me, name):
        a = {"rawtraces": self.raw(me), "fs": me["fs"], "sgfreq": me["sgfreq"], "sgamp": me["sgamp"], "rsh": me["rsh"],
             "dt0": pick(rng, [1e-5, 0.0, -1e-6])}
        if maybe(rng, 0.15):
            a["rawtraces"]["offset"] = 3e-7
        if maybe(rng, 0.1):
            a["tracegain"] = 2.0
        if me["add"]:
            a["add180phase"] = True
        if not self.priors:
            a["r0"] = pick(rng, [0.0756, 0.3])
            a["rp"] = 0.006
        if maybe(rng, 0.1):
            a["fs"] = me["fs"] + me["sgfreq"] / pick(rng, [2, 5])
            a["autoresample"] = maybe(rng, 0.8)
        if maybe(rng, 0.1):
            a["dutycycle"] = 0.45
        if maybe(rng, 0.25):
            a["rawtraces"]["as"] = pick(rng, ["fortran", "strided", "f32"])
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}

    def fit(self, rng, me, name, poles=None):
        k = poles or pick(rng, [1, 2, 2, 3, 3])
        a = {"poles": k}
        if maybe(rng, 0.3):
            a["fcutoff"] = me["fs"] * pick(rng, [0.05, 0.2, 0.4])
        if self.priors:
            dim = {1: 4, 2: 8, 3: 10}.get(k, 4)
            pr, pc = [0.0] * dim, [[0.0] * dim for _ in range(dim)]
            for j, v in enumerate([me["rsh"], 0.006] + ([0.0756] if k != 1 else [])):
                v *= pick(rng, [1, 1, 1.1])
                pr[j], pc[j][j] = v, (pick(rng, [0.1, 0.03]) * v) ** 2
            a["priors"] = {"$": "arr", "v": pr}
            a["priorscov"] = {"$": "arr", "v": pc}
        elif maybe(rng, 0.02):
            a["poles"] = 4
        return {"o": name, "m": "dofit", "a": a}

    def read(self, rng, me, name):
        if maybe(rng, 0.25):
            return {"o": name, "m": "@obs", "attrs": pick(rng, OBS)}
        return {"o": name, "m": "fitresult", "a": {"poles": pick(rng, [1, 2, 3, 3, 2, 4])}}

    def plot(self, rng, me, name):
        m = pick(rng, PLOTS)
        a = {}
        if maybe(rng, 0.3):
            a["poles"] = pick(rng, ["all", [1, 2], [2], 3, [3]])
        if m == "plot_zoomed_in_trace" and maybe(rng, 0.5):
            a["zoomfactor"] = pick(rng, [0.05, 0.3])
        return {"o": name, "m": m, "a": a, "plot": True}

    def observe_all(self, rng, me, name):
        qs = [{"o": name, "m": "fitresult", "a": {"poles": k}} for k in (1, 2, 3)]
        qs += [{"o": name, "m": "@obs", "attrs": x} for x in OBS]
        rng.shuffle(qs)
        return qs


class DIDVPriors(DIDV):
    cls = "DIDVPriors"
    priors = True


class DIDVFromData(DIDV):
    """Object made from averages instead of raw traces."""
    cls = "didvinitfromdata"
    fromdata = True

    def ctor(self, rng, me, name):
        n = int(round(me["fs"] / me["sgfreq"])) * int(me["n"] * me["sgfreq"] / me["fs"])
        one = dict(self.raw(me), n=n, nt=1)
        a = {"tmean": {"$": "row", "of": one}, "didvmean": {"$": "didvspec", "of": one},
             "didvstd": {"$": "didvstd", "of": one, "s": 3e-2}, "offset": 1e-7, "offset_err": 1e-9,
             "fs": me["fs"], "sgfreq": me["sgfreq"], "sgamp": me["sgamp"], "rsh": me["rsh"],
             "dt0": pick(rng, [1e-5, 0.0]), "r0": 0.0756, "rp": 0.006}
        if me["add"]:
            a["add180phase"] = True
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}


M_DIDV = register(DIDV())
M_PRIORS = register(DIDVPriors())
M_FROMDATA = register(DIDVFromData())
