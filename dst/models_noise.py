"""Noise objects."""
from .models import Model, maybe, pick, register, seed

GROUPS = {"psd": ["psd", "real_psd", "imag_psd"], "cc": ["corrcoeff"],
          "csd": ["csd", "real_csd", "imag_csd", "real_csd_std", "imag_csd_std"],
          "unc": ["uncorrnoise", "corrnoise"]}
CALC = {"psd": "calculate_psd", "cc": "calculate_corrcoeff", "csd": "calculate_csd", "unc": "calculate_uncorr_noise"}
OF_CALC = {v: k for k, v in CALC.items()}
OF_ATTR = {a: g for g, v in GROUPS.items() for a in v}


class Noise(Model):
    """State: k = slope removals so far; per group the k at which it was last
    calculated (None = never, "?" = interrupted, "old?" = the slope removal that
    should have dropped it was interrupted, which nobody repaired since)."""
    cls = "Noise"

    def init(self):
        return {"k": 0, "psd": None, "cc": None, "csd": None, "unc": None}

    @staticmethod
    def _rm(op, n):
        return [{"o": op["o"], "m": "remove_trace_slope", "a": {}} for _ in range(n)]

    def _full(self, st, op):
        if "?" in (st["psd"], st["cc"], st["csd"], st["unc"]) or st["csd"] == "old?":
            return None
        if st["csd"] is not None and st["csd"] < st["k"]:
            return None
        out = []
        for j in range(st["k"] + 1):
            out += [{"o": op["o"], "m": CALC[g], "a": {}} for g in ("psd", "cc", "csd", "unc") if st[g] == j]
            if j < st["k"]:
                out += self._rm(op, 1)
        return out

    def canon(self, st, op):
        m = op["m"]
        if m in OF_CALC:
            return None if m == "calculate_uncorr_noise" and st["csd"] == "old?" else self._rm(op, st["k"])
        if m == "@obs":
            a = op["attrs"][0]
            g = OF_ATTR.get(a)
            if g is None:
                return self._rm(op, st["k"]) if a == "traces" else []
            v = st[g]
            if v in ("?", "old?"):
                return None
            if v is None:
                return []
            seq = self._rm(op, v) + [{"o": op["o"], "m": CALC[g], "a": {}}]
            return seq if v == st["k"] else {"alts": [seq, []]}
        if m.startswith("plot_") or m == "@dep":
            return self._full(st, op)
        return []

    def advance(self, st, op):
        m = op["m"]
        if m == "remove_trace_slope":
            return dict(st, k=st["k"] + 1)
        if m in OF_CALC:
            g = OF_CALC[m]
            st = dict(st)
            if g == "unc" and st["csd"] == "old?":
                st["unc"] = "?"
                return st
            st[g] = st["k"]
            if g == "unc":
                st["csd"] = st["k"]
            return st
        return st

    def after_reject(self, st, op):
        if op["m"] == "calculate_uncorr_noise":
            return dict(st, csd="old?" if st["csd"] == "old?" else "?", unc=st["unc"])
        return st

    def after_fault(self, bel, op, kind):
        m = op["m"]
        if m not in OF_CALC and m != "remove_trace_slope":
            return bel
        out = []
        for b in bel:
            if kind == "alloc":
                out += [b, self.advance(b, op)]
                if m == "calculate_uncorr_noise" and b["csd"] != "old?":
                    out.append(dict(b, csd=b["k"]))
            elif m == "remove_trace_slope":
                b = dict(b)
                done = self.advance(b, op)
                if b["csd"] is not None:
                    done["csd"] = "old?"
                    if b["csd"] != "old?":
                        b["csd"] = "?"
                out += [b, done]
            else:
                b = dict(b)
                g = OF_CALC[m]
                b[g] = "?"
                if g == "unc" and b["csd"] not in (b["k"], "old?"):
                    b["csd"] = "?"
                out.append(b)
        return out

    # -- workload --------------------------------------------------------------
    def meta(self, rng):
        nc = pick(rng, [1, 2, 2, 3])
        return {"shape": [pick(rng, [5, 6, 8]), nc, pick(rng, [16, 17, 32, 33, 64])], "fs": pick(rng, [1e4, 625e3]),
                "seed": seed(rng), "name": pick(rng, ["noise run 1", "n"]), "slope": pick(rng, [0.0, 1e-10, 1e-9])}

    def ctor(self, rng, me, name):
        nt, nc, n = me["shape"]
        tr = {"$": "noisetraces", "shape": me["shape"], "seed": me["seed"], "slope": me["slope"], "mean": pick(rng, [0.0, 1e-8])}
        if maybe(rng, 0.2):
            tr["as"] = pick(rng, ["fortran", "strided"])
        a = {"traces": tr, "fs": me["fs"], "channames": [f"ch{i}" for i in range(nc)], "name": me["name"]}
        if maybe(rng, 0.3):
            a["tracegain"] = pick(rng, [2.0, 1024.0])
        if maybe(rng, 0.2):
            a["time"] = {"$": "range", "n": n, "fs": me["fs"], "start": 1e-3}
        return {"o": name, "m": "@new", "cls": self.cls, "a": a}

    def calc(self, rng, me, name, multi=0.9):
        if me["shape"][1] == 1 and maybe(rng, multi):
            return {"o": name, "m": "calculate_psd", "a": {}}
        return {"o": name, "m": pick(rng, ["calculate_psd", "calculate_corrcoeff", "calculate_csd",
                                           "calculate_uncorr_noise", "calculate_uncorr_noise"]), "a": {}}

    def obs(self, rng, me, name, g=None):
        if g is None:
            g = pick(rng, ["psd", "cc", "csd", "unc", "unc", "traces", "meta"])
        at = GROUPS.get(g) or {"traces": ["traces"], "meta": ["time", "freqs", "fs", "channames", "chandict", "name"]}[g]
        return {"o": name, "m": "@obs", "attrs": list(at)}

    def observe_all(self, rng, me, name):
        gs = ["psd", "cc", "csd", "unc", "traces", "meta"]
        rng.shuffle(gs)
        return [self.obs(rng, me, name, g) for g in gs]

    def plot(self, rng, me, name):
        nc = me["shape"][1]
        m = pick(rng, ["plot_psd", "plot_reim_psd", "plot_corrcoeff", "plot_csd", "plot_decorrelatednoise"])
        a = {}
        if m == "plot_psd":
            a = {"lgcoverlay": maybe(rng, 0.6)}
        elif m == "plot_corrcoeff":
            a = {"lgcsmooth": maybe(rng, 0.5), "nwindow": 5}
        elif m == "plot_csd":
            a = {"whichcsd": pick(rng, [["01"], ["00", "01"], ["0%d" % (nc - 1)], ["07"]]), "lgcreal": maybe(rng, 0.5)}
        elif m == "plot_decorrelatednoise":
            a = {k: maybe(rng, 0.5) for k in ("lgcoverlay", "lgcdata", "lgcuncorrnoise", "lgccorrelated", "lgcsum")}
        return {"o": name, "m": m, "a": a, "plot": True, "stdout": True}


M_NOISE = register(Noise())
