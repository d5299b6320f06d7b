"""Value recipes: JSON descriptions from which every argument is built.

A recipe is {"$": kind, ...}.  Building is a pure function of the recipe and uses
its own generator, never numpy's global one."""
import sys

import numpy as np


def _rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


def _pulse_t(n, fs, tr, tf, t0bin):
    t = (np.arange(n) - t0bin) / fs
    y = np.where(t > 0, np.exp(-t / tf) - np.exp(-t / tr), 0.0)
    m = np.abs(y).max()
    return y / m if m > 0 else y


def k_noise(r):
    return _rng(r["seed"]).normal(0.0, r.get("sigma", 1.0), size=tuple(r["shape"])) + r.get("mean", 0.0)


def k_template(r):
    return _pulse_t(r["n"], r["fs"], r["tr"], r["tf"], r.get("t0", 0) + r["n"] // 2)


def k_trace(r):
    """Sum of pulses on noise."""
    n, fs = r["n"], r["fs"]
    g = _rng(r["seed"])
    y = g.normal(0.0, r.get("sigma", 1e-9), size=n) + r.get("offset", 0.0)
    y = y + r.get("slope", 0.0) * np.arange(n) / n
    for amp, t0 in r.get("pulses", []):
        y = y + amp * _pulse_t(n, fs, r["tr"], r["tf"], n // 2 + t0)
    return y


def k_psd(r):
    """Two-sided PSD on the fft grid, symmetric, strictly positive."""
    n, fs = r["n"], r["fs"]
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    lvl = r.get("level", 1e-22)
    p = lvl * (1.0 / (1.0 + (f / r.get("fc", fs / 8)) ** 2) + r.get("floor", 0.1))
    if r.get("lowf"):
        p = p + lvl * r["lowf"] / (1.0 + f / (fs / n))
    if r.get("dc") is not None:
        p[0] = {"inf": np.inf, "zero": 0.0}.get(r["dc"], r["dc"])
    if r.get("seed") is not None:
        g = _rng(r["seed"])
        w = np.exp(0.3 * g.normal(size=n))
        half = n // 2
        for i in range(1, n):
            w[i] = w[min(i, n - i)]
        p = p * w
    for k, v in r.get("bins", []):     # single bins without noise, or without information
        p[[k % n, -k % n]] = float(v)
    return p


def k_arr(r):
    return np.array(r["v"], dtype=r.get("dtype", float))


def k_range(r):
    return np.arange(r["n"]) / r["fs"] + r.get("start", 0.0)


def k_freqs(r):
    return np.fft.fftfreq(r["n"], 1 / r["fs"])


def k_linspace(r):
    return np.linspace(r["a"], r["b"], r["n"])


def k_didv(r):
    """ntraces of a two-pole TES square-wave response plus noise (own model)."""
    n, fs, sgf = r["n"], r["fs"], r["sgfreq"]
    g = _rng(r["seed"])
    t = np.arange(n) / fs
    sgamp, rsh = r["sgamp"], r["rsh"]
    A, B, tau1, tau2 = r["A"], r["B"], r["tau1"], r["tau2"]
    y = np.zeros(n, dtype=complex)
    kmax = int(fs / 2 / sgf)
    for k in range(1, min(kmax, r.get("nharm", 400)), 2):
        w = 2 * np.pi * k * sgf
        z = A * (1 + 1j * w * tau2) + B / (1 + 1j * w * tau1 - r.get("C", 0.0) / (1 + 1j * w * r.get("tau3", 1e-3)))
        src = sgamp * rsh * 2 / (1j * np.pi * k)     # Fourier coeff. of the drive
        y += src / z * np.exp(1j * w * (t - r.get("dt", 0.0)))
    sig = -y.real
    if r.get("flip"):
        sig = -sig
    out = np.empty((r["nt"], n))
    for i in range(r["nt"]):
        out[i] = sig + g.normal(0, r["sigma"], n) + r.get("offset", 0.0)
        if r.get("drift"):
            out[i] += r["drift"] * np.arange(n) / n * (1 + 0.1 * i)
    for i in r.get("bad", []):
        out[i % r["nt"]] += 50 * r["sigma"] * _pulse_t(n, fs, 2e-6, 100e-6, n // 3)
    return out


def k_noisetraces(r):
    """(ntraces, nchan, nbins) correlated coloured noise."""
    nt, nc, n = r["shape"]
    g = _rng(r["seed"])
    common = g.normal(size=(nt, 1, n))
    x = g.normal(size=(nt, nc, n)) + r.get("corr", 0.5) * common
    x = np.cumsum(x, axis=-1) * r.get("red", 0.05) + x
    x = x * r.get("sigma", 1e-9)
    x = x + r.get("slope", 0.0) * np.arange(n) + r.get("mean", 0.0)
    return x


def k_twin(r):
    a = np.array(build(r["of"]), copy=True)
    if a.ndim > 1 and a.shape[-1] < 6:          # short last axis: work on the first one
        return np.moveaxis(_twin(np.moveaxis(a, 0, -1).copy(), r), -1, 0).copy()
    return _twin(a, r)


def _twin(a, r):
    how = r["how"]
    if how == "neg":
        a = -a
    elif how == "rev":
        a = a[..., ::-1].copy()
    elif how == "roll":
        a = np.roll(a, r.get("k", 7), axis=-1)
    elif how == "perm":
        idx = np.arange(1, a.shape[-1] - 1)
        _rng(r.get("seed", 1)).shuffle(idx)
        b = a.copy()
        b[..., 1:-1] = a[..., idx]
        a = b
    elif how == "scale":
        a = a * r.get("k", 2.0)
    elif how == "mid":                       # one interior sample pair changed, sum kept
        m = a.shape[-1] // 2
        d = np.abs(a).max() * 0.5
        a[..., m] += d
        a[..., m + 1] -= d
    elif how == "tiny":
        a = a * (1 + 1e-3)
    else:
        raise ValueError(how)
    return a


def k_sweep(r):
    """(ntemps, nch, niters) bias sweep: what = "x" (bias) or "y" (read-out current)."""
    nt, nc, n = r["shape"]
    g = _rng(r["seed"])
    x = np.linspace(r.get("max", 4e-4), r.get("max", 4e-4) / n, n)
    # every channel leaves the normal branch elsewhere
    R = np.array([[np.concatenate([np.full(k, 1.0), np.geomspace(0.8, 0.06, n - 3 - k), np.zeros(3)]) for k in row]
                  for row in g.integers(4, 8, size=(nt, nc))])
    rn = 0.3 * (1 + 0.1 * g.normal(size=(nt, nc, 1)))
    rp = 6e-3 * (1 + 0.1 * g.normal(size=(nt, nc, 1)))
    ioff = 1e-6 * g.normal(size=(nt, nc, 1))
    xoff = (1e-6 if r["seed"] % 3 else 0) * g.normal(size=(nt, nc, 1))
    noise = r.get("noise", 2e-9) * g.normal(size=(nt, nc, n))
    rsh = r.get("rsh", 5e-3)
    X = np.broadcast_to(x, (nt, nc, n)) + xoff
    Y = x * rsh / (rsh + rp + rn * R) + ioff + noise
    if r.get("vb"):
        X = X * rsh
    out = np.array(X if r["what"] == "x" else Y)
    for t, c, i in r.get("nans", []):
        out[t % nt, c % nc, i] = np.nan
    return out


def k_muon(r):
    t = np.arange(r["n"]) / r["fs"]
    return r["amp"] * np.exp(-t / r["tau"]) + _rng(r["seed"]).normal(0, r["sigma"], r["n"])


def k_cuttraces(r):
    """White noise traces, some with pulses (bad), some with tails (slopes)."""
    nt, n = r["nt"], r["n"]
    g = _rng(r["seed"])
    y = g.normal(size=(nt, n))
    for i in range(r.get("bad", 0)):
        y[(3 * i + 1) % nt] += 30 * (1 + i) * _pulse_t(n, 1.0, 1.0, n / 10, n // 3 + 2 * i)
    for i in range(r.get("tails", 0)):
        y[(5 * i + 2) % nt] += 20 * (1 + i) * np.exp(-np.arange(n) / (n / 2))
    for i in range(r.get("muons", 0)):      # saturated for a while
        t = np.arange(n) - n // 5
        y[(2 * i + 1) % nt] += [300, 30, 6000][i % 3] * np.where(t < 0, 0, np.exp(-np.maximum(t - n // 3, 0) / (n / 4)))
    return y


def k_vals(r):
    g, n = _rng(r["seed"]), r["n"]
    how = r["how"]
    if how == "skew":
        x = g.exponential(size=n)
        return -x if r["seed"] % 2 else x
    x = g.normal(size=n)
    if how == "outliers":
        x[:: max(2, n // 5)] += 15
    elif how == "ints":
        x = np.round(2 * x)
    elif how == "shifted":
        x = x + (0.5 if r["seed"] % 2 else -0.5)
    elif how == "neg":
        x = -np.abs(x)
    elif how == "const":
        x = np.full(n, 1.5)
    elif how == "heavy":
        x = g.standard_cauchy(n)
    return x


def k_bkg(r):
    n = r["n"]
    b = np.ones((n, r["nb"]))
    b[:, -2] = np.arange(n) / n
    if r["nb"] > 2:
        b[:, 0] = _pulse_t(n, 1.0, 2.0, n / 8, n // 4 + r.get("seed", 0))
    return b


def k_masked(r):
    """Part r of q of a two-sided spectrum (disjoint, symmetric supports)."""
    p = build(r["of"])
    i = np.arange(len(p))
    return np.where(np.minimum(i, len(p) - i) % r["q"] == r["r"], p, 0.0)


def k_col(r):
    return build(r["of"])[:, None]


def k_cnoise(r):
    g = _rng(r["seed"])
    return g.normal(size=tuple(r["shape"])) + 1j * g.normal(size=tuple(r["shape"]))


def k_full(r):
    return np.full(tuple(r["shape"]), r["v"], dtype=float)


def k_row(r):
    return np.array(build(r["of"])[0], copy=True)


def k_didvspec(r):
    """Noisy dI/dV on the fft grid belonging to a k_didv recipe."""
    d = r["of"]
    n, fs = d["n"], d["fs"]
    f = np.fft.fftfreq(n, 1 / fs)
    g = _rng(d["seed"] + 1)
    jw = 2j * np.pi * f
    z = d["A"] * (1 + jw * d["tau2"]) + d["B"] / (1 + jw * d["tau1"] - d.get("C", 0.0) / (1 + jw * d.get("tau3", 1e-3)))
    y = (-1 if d.get("flip") else 1) / z * np.exp(-jw * d.get("dt", 0.0))
    return y + 1e-2 * (g.normal(size=n) + 1j * g.normal(size=n))


def k_didvstd(r):
    d = r["of"]
    n, fs, sgf = d["n"], d["fs"], d["sgfreq"]
    out = np.full(n, r["s"] * (1 + 1j), dtype=complex)
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    k = f / sgf
    odd = (np.abs(k - np.round(k)) < 1e-6) & (np.round(k) % 2 == 1)
    out[~odd] = (1 + 1j) * 1e20
    return out


def k_arrive(r):
    """The same measurements arriving in another order, some of them repeated, missing
    or replaced by what a broken read-out delivers."""
    a = np.array(build(r["of"]), copy=True)
    for ax, idx in r.get("take", []):
        a = np.take(a, idx, axis=ax)
    for sl, how in r.get("bad", []):
        ix = tuple(slice(None) if x is None else x for x in sl)
        if how == "nan":
            a[ix] = np.nan
        elif how == "inf":
            a[ix] = np.inf
        elif how == "zero":
            a[ix] = 0
        elif how == "huge":
            a[ix] = a[ix] * 1e6
        elif how == "stuck":
            a[ix] = 1e-7
        elif how == "neg":
            a[ix] = -a[ix]
        else:
            raise ValueError(how)
    return a


def k_stored(r):
    """The same values stored in another way."""
    return stored(build(r["of"]), r["how"])


STORAGE = ["readonly", "memmap", "part", "strided", "fortran", "reversed", "swapped", "unaligned"]


def stored(a, how):
    if not isinstance(a, np.ndarray) or a.dtype == object or a.size == 0:
        return a
    if how == "readonly":
        b = np.array(a)
        b.flags.writeable = False
        return b
    if how == "memmap":
        import tempfile
        with tempfile.TemporaryFile(prefix="dst-") as fh:
            fh.write(np.ascontiguousarray(a).tobytes())
            fh.flush()
            return np.memmap(fh, dtype=a.dtype, mode="r", shape=a.shape)
    if how == "part":
        b = np.full((2,) + a.shape[:-1] + (a.shape[-1] + 5,), 77, dtype=a.dtype)
        b[1, ..., 3:-2] = a
        return b[1, ..., 3:-2]
    if how == "strided":
        return _as(a, "strided")
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "reversed":
        return np.array(a[..., ::-1])[..., ::-1]
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "unaligned":
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        b = raw[1:].view(a.dtype).reshape(a.shape)
        b[...] = a
        return b
    raise ValueError(how)


def form(v, how):
    """The same argument written in another way."""
    if how == "npfloat":
        return np.float64(v)
    if how == "int":
        return int(v)
    if how == "npint":
        return np.int64(v)
    if how == "npbool":
        return np.bool_(v)
    if how == "copystr":                     # equal, but not the same object
        return "".join(list(v)) if len(v) > 1 else v
    if how == "npstr":
        return np.str_(v)
    if how == "tuple":
        return tuple(v)
    if how == "array":
        return np.array(v)
    if how == "range":
        return range(v[0], v[0] + len(v))
    raise ValueError(how)


def k_stack(r):
    return np.stack([np.asarray(build(x)) for x in r["v"]])


def k_item(r):
    """Part of an array."""
    a = build(r["of"])
    return np.array(a[tuple(slice(*x) if isinstance(x, list) else x for x in r["ix"])], copy=True)


def k_reshape(r):
    return np.reshape(build(r["of"]), tuple(r["shape"]))


def k_bcast(r):
    """The values repeated over further axes (None: new axis of the given length)."""
    a = np.asarray(build(r["of"]))
    return np.array(np.broadcast_to(a.reshape(tuple(r["as_shape"])), tuple(r["shape"])))


def k_times(r):
    return build(r["of"]) * r["k"]


def k_demean(r):
    x = np.array(build(r["of"]))
    return x - np.mean(x, axis=1)[:, np.newaxis]


def k_swap(r):
    return np.array(np.swapaxes(build(r["of"]), -1, -2))


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("k_")}


def _as(a, how):
    if how == "list":
        return a.tolist()
    if how == "f32":
        return a.astype(np.float32)
    if how == "int":
        return np.round(a / max(np.abs(a).max(), 1e-300) * 1000).astype(int)
    if how == "strided":
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        b[..., 1::2] = 77.0
        return b[..., ::2]
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "bool":
        return a.astype(bool)
    raise ValueError(how)


def build(r):
    """Recipe -> fresh value (lists/dicts are built recursively)."""
    if isinstance(r, dict):
        if "$" in r:
            k = r["$"]
            if k == "tuple":
                v = tuple(build(x) for x in r["v"])
            elif k == "slice":
                v = slice(*r["v"])
            elif k == "inf":
                v = np.inf
            elif k == "nan":
                v = np.nan
            elif k == "np":
                v = np.float64(r["v"])
            elif k == "form":
                v = form(build(r["of"]), r["how"])
            elif k == "objarr":
                v = np.empty(len(r["v"]), dtype=object)
                for i, x in enumerate(r["v"]):
                    v[i] = build(x)
            else:
                v = KINDS[k](r)
            if r.get("as"):
                v = _as(v, r["as"])
            return v
        return {k: build(v) for k, v in r.items()}
    if isinstance(r, list):
        return [build(x) for x in r]
    if isinstance(r, str):
        return sys.intern(r)        # like a literal in the caller's source
    return r
