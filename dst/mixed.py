"""Mixed workloads: objects of every class plus the stateless functions, as one
seeded stream of operations."""
from . import catalog, models_nsmb
from .models import M_OF, maybe, pick, seed
from .models_didv import M_DIDV, M_FROMDATA, M_PRIORS
from .models_fit import M_MU, M_NL, M_TES
from .models_iv import M_IBIS, M_IV
from .models_noise import M_NOISE

MODELS = {"of": M_OF, "didv": M_DIDV, "priors": M_PRIORS, "fromdata": M_FROMDATA, "iv": M_IV, "ibis": M_IBIS,
          "noise": M_NOISE, "nl": M_NL, "mu": M_MU, "tes": M_TES}
KINDS = sorted(MODELS) + ["nsmb"]
# relative weights: classes with much state or fast operations more often
WEIGHTED = ["of"] * 3 + ["didv"] * 2 + ["priors", "fromdata"] + ["iv", "ibis"] * 2 + ["noise"] * 3 + ["nl", "nl", "mu", "tes", "nsmb", "nsmb"]


class Obj:
    """One object (or filter set-up) of a mixed history."""

    def __init__(self, rng, kind, name, like=None):
        self.kind, self.name = kind, name
        self.made = False
        if kind == "nsmb":
            self.me = models_nsmb.meta(rng)
            return
        self.mo = MODELS[kind]
        self.me = self.mo.meta(rng)
        if kind == "of":
            self.me["n"] = pick(rng, [64, 65, 100, 128])
        if like is not None and like.kind == kind:
            # twins share sizes and rates but not the data
            self.me = dict(like.me)
            if "pool" in self.me:
                self.me["pool"] = list(like.me["pool"]) if maybe(rng, 0.5) else []
            if self.me.get("seed") is not None and maybe(rng, 0.7):
                self.me["seed"] = seed(rng)

    def make(self, rng):
        self.made = True
        if self.kind == "nsmb":
            return models_nsmb.setup(rng, self.me, self.name)
        return [self.mo.ctor(rng, self.me, self.name)]

    def op(self, rng, plots=0.0):
        k, me, n = self.kind, self.me, self.name
        if k == "nsmb":
            return models_nsmb.query(rng, me, n, 0.03)
        mo = self.mo
        if plots and k not in ("of", "nl", "mu", "tes") and maybe(rng, plots):
            return mo.plot(rng, me, n)
        r = rng.random()
        if k == "of":
            return mo.update(rng, me, n) if r < 0.2 else mo.query(rng, me, n)
        if k in ("didv", "priors", "fromdata"):
            if r < 0.15:
                return {"o": n, "m": "processtraces", "a": {}}
            return mo.fit(rng, me, n) if r < 0.5 else mo.read(rng, me, n)
        if k in ("iv", "ibis"):
            return mo.ana(rng, me, n) if r < 0.5 else mo.obs(rng, n)
        if k == "noise":
            if r < 0.5:
                return mo.calc(rng, me, n)
            return {"o": n, "m": "remove_trace_slope", "a": {}} if r < 0.6 else mo.obs(rng, me, n)
        if k in ("nl", "mu"):
            return mo.fitop(rng, me, n) if r < 0.45 else mo.evalop(rng, me, n)
        return mo.query(rng, me, n) if r < 0.8 else mo.obs(rng, n)


class Zoo:
    def __init__(self, rng, nobj, kinds=None, fresh=True):
        self.objs = []
        for i in range(nobj):
            like = pick(rng, self.objs) if self.objs and maybe(rng, 0.4) else None
            kind = like.kind if like else pick(rng, kinds or WEIGHTED)
            self.objs.append(Obj(rng, kind, f"z{i}", like))

    def next(self, rng, plots=0.0):
        """List of operations of one step (constructions take several)."""
        o = pick(rng, self.objs)
        if not o.made:
            return o.make(rng)
        return [o.op(rng, plots)]

    def drop(self, rng):
        made = [o for o in self.objs if o.made and o.kind != "nsmb"]
        if not made:
            return []
        o = pick(rng, made)
        o.made = False
        return [{"o": o.name, "m": "@del"}]


def observe(rng, o):
    """Everything this object holds."""
    if o.kind in ("iv", "ibis"):
        return [o.mo.obs(rng, o.name, True)]
    if o.kind in ("noise", "didv", "priors", "fromdata"):
        return o.mo.observe_all(rng, o.me, o.name)
    return []


PURE = [n for n in catalog.NAMES if not catalog.CAT[n][1]]
STOCH = [n for n in catalog.NAMES if catalog.CAT[n][1].get("stochastic")]
FAST = [n for n in PURE if n not in catalog.SLOW]
