"""Stand-alone plotting functions."""
from . import models_nsmb
from .models import maybe, pick


def plotnonlin(rng, o):
    """Plot of a fit on fitter object wrapper `o` (Obj of kind nl)."""
    me, mo = o.me, o.mo
    np_ = pick(rng, [1, 2, 2, 3])
    par = {"$": "tuple", "v": mo.params(rng, me, np_)}
    err = {"$": "tuple", "v": [abs(x) / 10 for x in par["v"]]}
    return {"m": "@fn", "f": "plotting.plotnonlin", "pa": [{"$": "obj", "o": o.name}, mo.pulse(rng, me), par, err], "plot": True}


def compare_noise(rng, names, metas):
    nc = max(m["shape"][1] for m in metas)
    return {"m": "@fn", "f": "plotting.compare_noise", "pa": [{"$": "objs", "v": names},
            [f"ch{i}" for i in range(nc)] if maybe(rng, 0.5) else [pick(rng, ["ch0", "ch1", "none"])]],
            "a": {"lgcdecorrelatednoise": maybe(rng, 0.4)}, "plot": True, "stdout": True}


def noise_sim(rng, name):
    n = pick(rng, [12, 30])
    a = {}
    if maybe(rng, 0.3):
        a["xlims"] = {"$": "tuple", "v": [10.0, 1e4]}
    if maybe(rng, 0.3):
        a["ylims"] = {"$": "tuple", "v": [1e-13, 1e-9]}
    return {"m": "@fn", "f": "plotting.plot_noise_sim", "pa": [
        {"$": "linspace", "a": 10.0, "b": 1e5, "n": n}, {"$": "full", "shape": [n], "v": 1e-22}, {"$": "obj", "o": name},
        pick(rng, ["current", "power", "sc", "normal"]), pick(rng, [1e-4, 2.5e-5])], "a": a, "plot": True, "noval": True}
