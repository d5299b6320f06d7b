"""C15: randomised trace selection is consistent for every random stream."""
import copy
from collections import Counter

from .. import compare, data, forkrun, simrng
from ..models import maybe, pick, seed

ID = "C15"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("Seeded value and trace sets, each put through the randomised selections under several scripted generator output sequences "
        "(constant, alternating, extreme, repeated, random words); structural invariants and composition checks after every call. "
        "Non-trivial: at least one selection under at least two scripts completed.")
STUBS = "the global random generator is put into states that deliver scripted 32-bit output sequences; step counter at executed lines"
ASSUMPTIONS = ["The parts (outlier removal, baseline, pileup and chi-square cuts) are the real functions called on their own.",
               "Sampling: absence of a violation in the explored runs is evidence, not proof."]
BUDGET = 400000


def gen(rng, i, tier):
    case = pick(rng, ["sym", "sym", "sym", "slope", "slope", "auto"])
    scripts = [simrng.script(rng) for _ in range(pick(rng, [2, 3, 4]))]
    a = {}
    if case == "sym":
        how = pick(rng, ["normal", "skew", "outliers", "ints", "shifted", "neg", "heavy", "const"])
        v = {"$": "vals", "n": pick(rng, [2, 3, 4, 5, 8, 9, 16, 25, 60, 150, 400]), "seed": seed(rng), "how": how}
        return {"case": case, "vals": v, "scripts": scripts, "sign": pick(rng, [1, -1])}
    n, fs = pick(rng, [64, 65, 100]), pick(rng, [1e4, 625e3])
    tr = {"$": "cuttraces", "nt": pick(rng, [6, 14, 25, 40]) if case == "slope" else pick(rng, [12, 20]), "n": n, "seed": seed(rng),
          "bad": pick(rng, [0, 1, 3]), "tails": pick(rng, [0, 2, 6, 9])}
    a = {"fs": fs, "symmetrizeflag": maybe(rng, 0.8)}
    if maybe(rng, 0.7):
        a["outlieralgo"] = pick(rng, ["removeoutliers", "iterstat", "iterstat"])
    if maybe(rng, 0.4):
        a.update(is_didv=True, sgfreq=fs / pick(rng, [20, 30, n]))
    if case == "slope":
        if maybe(rng, 0.4):
            a["nsig"] = pick(rng, [1.5, 2, 3])
    else:
        for k in ("lgcpileup1", "lgcslope", "lgcbaseline", "lgcpileup2", "lgcchi2"):
            if maybe(rng, 0.25):
                a[k] = False
        for k in ("nsigpileup1", "nsigslope", "nsigbaseline", "nsigpileup2", "nsigchi2"):
            if maybe(rng, 0.25):
                a[k] = pick(rng, [1.5, 2.5, 3])
    return {"case": case, "vals": tr, "scripts": scripts, "a": a}


# ---------------------------------------------------------------- child side --
def _guard(f):
    """-> (kind, value or exception name)"""
    from .. import mon
    mon.MON.op_begin(0, BUDGET)
    try:
        return "ok", f()
    except mon.StepBudget:
        return "budget", None
    except Exception as e:
        return "exc", type(e).__name__
    finally:
        mon.MON.op_end()


def child(spec):
    import numpy as np
    import qetpy.cut._cut as C
    from .. import mon
    mon.MON.start("line")
    try:
        f = {"sym": _sym, "slope": _slope, "auto": _auto}[spec["case"]]
        v, n, dig = f(spec, np, C)
    finally:
        mon.MON.stop()
    return {"v": v, "n": n, "digest": compare.digest(dig), "events": mon.MON.events}


def V(cls, what, detail):
    return {"class": cls, "op": 0, "what": what, "detail": detail, "during_fault": False}


def _mask(np, r, n, what):
    if r[0] == "budget":
        return V("no-progress", what, "the call does not complete within its step budget")
    if r[0] == "exc":
        return V("failed", what, f"raised {r[1]}")
    m = r[1]
    if not isinstance(m, np.ndarray) or m.dtype != bool or m.shape != (n,):
        return V("not-a-mask", what, f"returned {type(m).__name__} {getattr(m, 'shape', '')} {getattr(m, 'dtype', '')} instead of {n} flags")
    return None


def _sym(spec, np, C):
    vals = np.asarray(data.build(spec["vals"])) * spec["sign"]
    n, dig, kept, first = len(vals), [], None, None
    for sc in spec["scripts"]:
        np.random.set_state(simrng.state(sc))
        r = _guard(lambda: C.symmetrizedist(vals.copy()))
        bad = _mask(np, r, n, "symmetrizedist")
        if bad:
            return bad, 0, dig
        m = r[1]
        dig.append(m)
        if kept is not None and m.sum() != kept:
            return V("count-depends-on-stream", "symmetrizedist", f"{int(m.sum())} values kept under one stream, {int(kept)} under another"), 0, dig
        kept = m.sum()
        bad = balanced(np, C, vals, m)
        if bad:
            return bad, 0, dig
    return None, len(dig), dig


def balanced(np, C, vals, m):
    """Selection against the symmetric histogram about zero."""
    n = len(vals)
    mean = C.iterstat(vals, cut=2, precision=10000.0)[0]
    v = -vals if mean > 0 else vals
    top = v.max()
    nb = int(np.sqrt(n))
    nb += nb % 2 == 0
    if top <= 0 or nb < 3:
        return None if m.all() else V("needless-removal", "symmetrizedist", "values removed although the set cannot be symmetrised")
    cnt, edges = np.histogram(v, bins=nb, range=(-top, top))
    mid = nb // 2
    near = (np.abs(v[:, None] - edges[None, 1:-1]) < 1e-9 * top).any(axis=1)
    if near.any():          # values on a bin boundary: rounding decides their bin
        if not m[(v > edges[mid]) & ~near].all():
            return V("minority-removed", "symmetrizedist", "a value on the rarer side or close to zero was removed")
        return None
    idx = np.clip(np.searchsorted(edges, v, side="right") - 1, -1, nb - 1)
    inside = (v >= -top) & (v <= top)
    for k in range(mid + 1, nb):
        opp = nb - 1 - k
        hi, lo = inside & (idx == k), inside & (idx == opp)
        if not m[hi].all():
            return V("minority-removed", "symmetrizedist", "a value on the rarer side was removed")
        want = min(lo.sum(), hi.sum())
        if m[lo].sum() != want:
            return V("unbalanced", "symmetrizedist", f"{int(m[lo].sum())} values kept at one distance below zero, {int(hi.sum())} above (of {int(lo.sum())})")
    c = inside & (idx == mid) & (v > edges[mid])
    if not m[c].all():
        return V("centre-removed", "symmetrizedist", "a value close to zero was removed")
    if m[~inside].any():
        return V("outside-kept", "symmetrizedist", "a value beyond the symmetric range was kept")
    return None


def slopes_of(np, t, fs, is_didv, sgfreq):
    n = t.shape[1]
    if is_didv:
        per = fs / sgfreq
        npd = np.floor(n / fs * sgfreq)
        if npd > 1:
            b = slice(int(per / 4), int(3 * per / 8))
            off = (npd - 1.0) * per
            e = slice(int(off + per / 4), int(off + 3 * per / 8))
        else:
            b, e = slice(int(per / 4), int(5 * per / 16)), slice(int(5 * per / 16), int(3 * per / 8))
    else:
        b, e = slice(0, int(n / 10)), slice(int(9 * n / 10), n)
    return t[:, e].mean(axis=1) - t[:, b].mean(axis=1)


def _slope(spec, np, C):
    t = data.build(spec["vals"])
    a = spec["a"]
    n, dig = len(t), []
    s = slopes_of(np, t, a["fs"], a.get("is_didv", False), a.get("sgfreq", 100.0))
    for sc in spec["scripts"]:
        st = simrng.state(sc)
        np.random.set_state(st)
        r = _guard(lambda: C.slopecut(t.copy(), **a))
        np.random.set_state(st)
        ref = _guard(lambda: _slope_ref(np, C, t, s, a))
        dig.append([r[0], r[1]])
        if ref[0] == "exc" and r[0] == "exc":
            continue
        bad = _mask(np, r, n, "slopecut")
        if bad:
            return bad, 0, dig
        if ref[0] != "ok":
            continue
        m, keep = r[1], ref[1][1]
        if (m & ~keep).any():
            return V("kept-unselected", "slopecut", "a trace was kept that the symmetrisation had removed"), 0, dig
        # slopes equal up to rounding may fall on either side of a boundary
        d = np.flatnonzero(m != ref[1][0])
        if len(d) > 0 and not _touchy(np, C, t, s, a, st, ref[1][0]):
            return V("not-composition", "slopecut", f"trace {int(d[0])}: selection differs from symmetrising and removing outliers one after the other"), 0, dig
    return None, len(dig), dig


def _slope_ref(np, C, t, s, a):
    keep = C.symmetrizedist(s) if a.get("symmetrizeflag") else np.ones(len(t), dtype=bool)
    ix = np.flatnonzero(keep)
    if a.get("outlieralgo", "removeoutliers") == "removeoutliers":
        c = C.removeoutliers(s[ix])
    else:
        c = C.iterstat(s[ix], cut=a.get("nsig", 2), precision=10000.0)[2]
    m = np.zeros(len(t), dtype=bool)
    m[ix[c]] = True
    return m, keep


def _touchy(np, C, t, s, a, st, m):
    """Does rounding of the slopes alone change the reference selection?"""
    for eps in (1e-13, -1e-13, 1e-12):
        np.random.set_state(st)
        if (_slope_ref(np, C, t, s * (1 + eps * np.arange(len(s))), a)[0] != m).any():
            return True
    return False


def _auto(spec, np, C):
    t = data.build(spec["vals"])
    a = spec["a"]
    n, dig = len(t), []
    for sc in spec["scripts"]:
        st = simrng.state(sc)
        np.random.set_state(st)
        r = _guard(lambda: C.autocuts(t.copy(), **a))
        np.random.set_state(st)
        ref = _guard(lambda: _auto_ref(np, C, t, a))
        dig.append([r[0], r[1]])
        if ref[0] == "exc" and r[0] == "exc":
            continue
        bad = _mask(np, r, n, "autocuts")
        if bad:
            return bad, 0, dig
        if ref[0] == "ok" and (r[1] != ref[1]).any():
            return V("not-composition", "autocuts", f"trace {int(np.flatnonzero(r[1] != ref[1])[0])}: flag differs from applying the enabled cuts one after the other"), 0, dig
    return None, len(dig), dig


def _auto_ref(np, C, t, a):
    algo, fs = a.get("outlieralgo", "removeoutliers"), a["fs"]
    did, sg = a.get("is_didv", False), a.get("sgfreq", 200.0)
    ix = np.arange(len(t))
    if a.get("lgcpileup1", True):
        ix = ix[C.pileupcut(t[ix], fs=fs, outlieralgo=algo, nsig=a.get("nsigpileup1", 2))]
    if a.get("lgcslope", True):
        ix = ix[C.slopecut(t[ix], fs=fs, outlieralgo=algo, nsig=a.get("nsigslope", 2), is_didv=did,
                           symmetrizeflag=a["symmetrizeflag"], sgfreq=sg)]
    if a.get("lgcbaseline", True):
        ix = ix[C.baselinecut(t[ix], fs=fs, outlieralgo=algo, nsig=a.get("nsigbaseline", 2), is_didv=did, sgfreq=sg)]
    if a.get("lgcpileup2", True) and did:
        ix = ix[C.pileupcut(t[ix], fs=fs, outlieralgo=algo, nsig=a.get("nsigpileup2", 2), removemeans=True)]
    if a.get("lgcchi2", True):
        ix = ix[C.chi2cut(t[ix], fs=fs, outlieralgo="iterstat", nsig=a.get("nsigchi2", 3))]
    m = np.zeros(len(t), dtype=bool)
    m[ix] = True
    return m


# --------------------------------------------------------------- parent side --
def run(spec):
    try:
        r = forkrun.call(child, spec, timeout=60)
    except forkrun.ChildFailure as e:
        return {"harness": e.kind, "detail": e.detail, "violation": None, "stats": {}, "digest": "harness"}
    st = Counter({"ops": len(spec["scripts"]), "events": r["events"], "op:" + spec["case"]: len(spec["scripts"])})
    for s in spec["scripts"]:
        st["probe:random stream " + s["kind"]] += 1
    return {"violation": r["v"], "stats": dict(st), "digest": r["digest"], "done": r["n"]}


def reductions(spec):
    for i in range(len(spec["scripts"])):
        if len(spec["scripts"]) > 1:
            c = copy.deepcopy(spec)
            del c["scripts"][i]
            yield c
    for i, s in enumerate(spec["scripts"]):
        for k in ("zeros", "ones"):
            if s["kind"] != k:
                c = copy.deepcopy(spec)
                c["scripts"][i]["kind"] = k
                yield c
    for k in list(spec.get("a", {})):
        if k not in ("fs", "symmetrizeflag", "sgfreq", "is_didv"):
            c = copy.deepcopy(spec)
            del c["a"][k]
            yield c
    key = "n" if spec["case"] == "sym" else "nt"
    for x in (3, 5, 9, 16, 25):
        if x < spec["vals"][key]:
            c = copy.deepcopy(spec)
            c["vals"][key] = x
            yield c


def nontrivial(spec, res):
    return res.get("done", 0) >= 2
